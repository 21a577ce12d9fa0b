From bc1e54d282488d01054893ce4efa06e98b9ce0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 001/214] fix: a locked index variable keeps its value

---
 metku/optimization/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 3a87151..0d0a499 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -331,7 +331,8 @@ class IndexVariable(IntegerVariable):
                 " index or a value from the given list!\n"
                 f"Values: {self.values}")
 
-        self.value = new_value
+        if not self.locked:
+            self.value = new_value
 
     # @property
     # def idx(self):
-- 
2.43.0


From 15cb97a3002a49d09c4efe102d261bd384a9b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 002/214] fix: apply variable scaling also when several
 properties are targeted

---
 metku/optimization/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 0d0a499..07cc7d3 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -177,8 +177,10 @@ class Variable:
                                     new_val = new_value * self.scaling
 
                                 obj.__setattr__(p, new_val)
-                            else:
+                            elif isinstance(self, IndexVariable):
                                 obj.__setattr__(p, new_value)
+                            else:
+                                obj.__setattr__(p, new_value * self.scaling)
 
                     elif isinstance(self, IndexVariable):
                         obj.__setattr__(prop, new_value)
@@ -454,7 +456,7 @@ class CrossSectionVariable(Variable):
 
                             obj.__setattr__(p, new_val)
                         else:
-                            obj.__setattr__(p, new_value)
+                            obj.__setattr__(p, new_value * self.scaling)
                 else:
                     obj.cross_section.__setattr__(prop, new_value * self.scaling)
 
-- 
2.43.0


From 54c168e2e7e935352305b1f125d7e5b968c5d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 003/214] fix: add_variable and add_variables really add the
 variables

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8d054c0..b0e7947 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -657,12 +657,12 @@ class OptimizationProblem:
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-        self.vars.append(var)
+        self.add(var)
 
     def add_variables(self, variables):
         """ Adds new variables to the problem """
         for var in variables:
-            self.vars.append(var)
+            self.add(var)
 
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
-- 
2.43.0


From 3ff6c657ee7b557a610366a6462c7ae8cd50e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 004/214] fix: constraints given to add_constraint(s) belong to
 the problem

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index b0e7947..d8535eb 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -666,12 +666,12 @@ class OptimizationProblem:
 
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
-        self.cons.append(con)
+        self.add(con)
 
     def add_constraints(self, constraints):
         """ Adds new constraints to the problem """
         for con in constraints:
-            self.cons.append(con)
+            self.add(con)
 
     def add_structure(self, structure):
         """ Add structure to the problem """
-- 
2.43.0


From a5dbb8204dfb6a1dd617ee34e740a31d85bdeaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 005/214] fix: eval_eq_con and eval_ineq_con return the
 evaluated values

---
 metku/optimization/structopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index d8535eb..d3da374 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -628,6 +628,8 @@ class OptimizationProblem:
             if con.type == "=":
                 geq.append(con(x))
 
+        return np.asarray(geq)
+
     def eval_ineq_con(self, x):
         """ Evaluate inequality constriants
             All constraints are evaluated in the form g(x) >= 0
@@ -641,6 +643,8 @@ class OptimizationProblem:
             elif con.type == "<":
                 g.append(-con(x))
 
+        return np.asarray(g)
+
     def nvars(self):
         """ Return number of variables """
         return len(self.vars)
-- 
2.43.0


From 9d582ec579e119afd87e09cb0f2afac156abd3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 006/214] fix: objective substitutes only the free variables

---
 metku/optimization/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index 5e0f042..e67c172 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -65,7 +65,7 @@ class ObjectiveFunction:
                 """
                 break
 
-        self.problem.substitute_variables(fixed_vals)
+        self.problem.substitute_variables(x)
 
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
-- 
2.43.0


From 6801c45e5b961f171fddf6ca6dd196e7daace364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 007/214] fix: objective and constraints never use analysis
 results of another design

---
 metku/optimization/constraints.py |  4 +---
 metku/optimization/objective.py   |  5 +++--
 metku/optimization/structopt.py   | 11 +++++++++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index e11955c..57df39f 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -88,9 +88,7 @@ class Constraint:
         """
         if self.fea_required:
             for load_id in self.load_ids:
-                if load_id not in self.problem.fea_done:
-                    self.problem.fea(load_id)
-                elif not self.problem.fea_done[load_id]:
+                if not self.problem.fea_is_done(load_id):
                     self.problem.fea(load_id)
 
     def __repr__(self):
diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index e67c172..3ccc424 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -39,8 +39,6 @@ class ObjectiveFunction:
             Read values from 'x' and reverse them.
             Reversing is done so that 'pop' method can be employed.
         """
-        if self.fea_required and not self.problem.fea_done:
-            self.problem.fea()
 
         X = [val for val in x]
         X.reverse()
@@ -67,6 +65,9 @@ class ObjectiveFunction:
 
         self.problem.substitute_variables(x)
 
+        if self.fea_required and not self.problem.fea_is_done():
+            self.problem.fea()
+
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
         elif self.obj_type == ObjectiveTypeEnum.MAX:
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index d3da374..8cc446f 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -99,6 +99,8 @@ class OptimizationProblem:
         self.structure = structure
         self.profiles = profiles
         self.fea_done = {}
+        # Variable values for which the analyses in 'fea_done' were made
+        self.fea_vals = {}
         self.X = None
         self.x0 = None
         self.num_iters = 0
@@ -556,8 +558,17 @@ class OptimizationProblem:
         
         self.structure.calculate(load_id, support_method="REM", design=False)
         self.fea_done[load_id] = True
+        self.fea_vals[load_id] = [var.value for var in self.__vars]
         self.num_fem_analyses += 1
 
+    def fea_is_done(self, load_id="ALL"):
+        """
+        True, if the analysis results of 'load_id' belong to
+        the current values of the variables
+        """
+        return self.fea_done.get(load_id, False) and \
+            self.fea_vals.get(load_id) == [var.value for var in self.__vars]
+
     def __call__(self, x=None, prec=2, ncons=5):
         """ Call method evaluates the objective function and all constraints
             at x and returns their values
-- 
2.43.0


From ca1c87a6125bf88118cafefad0a555cca195325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 008/214] fix: exact penalty of a violated '>' constraint is
 positive

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8cc446f..884edf7 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -901,9 +901,9 @@ class OptimizationProblem:
                     F += R*max(0,val)
                 elif con.type == '>':
                     """ For geq type constraints, the penalty term is
-                         min(0,val)
+                         -min(0,val)
                     """
-                    F += R*min(0,val)
+                    F -= R*min(0,val)
             
             """ Variable bounds are treated separately """
             for (i,var) in enumerate(self.vars):                
-- 
2.43.0


From dafc313a10738e6b69d3c3d0cf8ab081948a131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 009/214] fix: exact penalty scales equality constraints by the
 penalty factor

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 884edf7..511596c 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -891,9 +891,9 @@ class OptimizationProblem:
                 val = con(x)
                 if con.type == '=':
                     """ For equality constraints, the penalty term
-                        is simply the value of the constraint squared
+                        is the absolute value of the constraint
                     """
-                    F += abs(val)
+                    F += R*abs(val)
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is max(0,val)
-- 
2.43.0


From ab3fc57cc30e677dd3f15f529c73a983dc9bd7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 010/214] fix: upper bound multiplier is updated from its own
 value

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 511596c..fd09a58 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -1088,7 +1088,7 @@ class OptimizationProblem:
                                 
             if var.ub < XUB:                    
                 val = x[i] - var.ub
-                var.ub_mult = max(var.lb_mult + 2*Rineq*val,0)
+                var.ub_mult = max(var.ub_mult + 2*Rineq*val,0)
             
 
 
-- 
2.43.0


From 677a0bfea81de60051458214d80b00f7b1732e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 011/214] fix: index variable has the index used by linear
 constraints

---
 metku/optimization/variables.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 07cc7d3..b0e0a80 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -336,11 +336,10 @@ class IndexVariable(IntegerVariable):
         if not self.locked:
             self.value = new_value
 
-    # @property
-    # def idx(self):
-    #     if self.value in self.values:
-    #         return self.values.index(self.value)
-    #     return self.value
+    @property
+    def idx(self):
+        """ Index of the current value in the list 'values' """
+        return self.value
 
 
 class DiscreteVariable(Variable):
-- 
2.43.0


From d7cc56389bd9ed587f3ec74615670c76611a1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 012/214] fix: linearize takes linear constraint coefficients
 of the free variables

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index fd09a58..8b1e673 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -408,7 +408,7 @@ class OptimizationProblem:
             dg = np.zeros(m)
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
-                    dg[j] = con.a[i]
+                    dg[j] = con.a[self.__vars.index(var)]
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
-- 
2.43.0


From dce8a11352330bacd4e65a2c2c5d87eb7ab1825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 013/214] fix: NumGrad works with current numpy

---
 metku/optimization/opt_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 65847bd..248afb2 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -28,12 +28,12 @@ def NumGrad(fun, x):
     # if isinstance(h, float):
     #    h = h * np.ones(n)
 
-    df = np.zeros(n, dtype=np.float)
+    df = np.zeros(n, dtype=float)
     #    
     for i in range(len(x)):
         # print("Täällä")
         # xh = deepcopy(x)
-        xh = np.asarray([val for val in x], dtype=np.float)
+        xh = np.asarray([val for val in x], dtype=float)
         h = max(1e-6 * abs(xh[i]), 1e-8)
         xh[i] += h
 
@@ -105,8 +105,8 @@ def mma_fun(xk, fk, dfk, L, U):
     n = len(xk)
 
     """ Initialize 'p' and 'q' as zeros. """
-    p = np.zeros(n, dtype=np.float)
-    q = np.zeros(n, dtype=np.float)
+    p = np.zeros(n, dtype=float)
+    q = np.zeros(n, dtype=float)
     for i, (Xk, Lk, Uk) in enumerate(zip(xk, L, U)):
         # Determine the constants p and q
         if dfk[i] >= 0:
-- 
2.43.0


From 1143107784d48bb4bbaf635626b54325472a78b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 014/214] fix: cross-section variable keeps its initial value
 and profiles

---
 metku/optimization/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index b0e0a80..d374323 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -422,7 +422,7 @@ class CrossSectionVariable(Variable):
 
     def __init__(self, name, lb=XLB, ub=XUB, target=None, profiles=None, value=None, target_fun=None):
 
-        super().__init__(name, lb, ub, target, profiles, value, target_fun=target_fun)
+        super().__init__(name, lb, ub, target=target, profiles=profiles, value=value, target_fun=target_fun)
 
     def substitute(self, new_value):
         """
-- 
2.43.0


From 73baf167eb37e5ce4f7903be21010d2164a6ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 015/214] fix: linearize includes a variable right-hand side of
 a linear constraint

---
 metku/optimization/structopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8b1e673..5415622 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -409,6 +409,8 @@ class OptimizationProblem:
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
                     dg[j] = con.a[self.__vars.index(var)]
+                    if con.b is var:
+                        dg[j] -= 1
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
-- 
2.43.0


From b41e8d88fddd2635a8b9385577e0c689a52eff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 016/214] fix: the iterates stored by a solver are not changed
 by later steps

---
 metku/optimization/solvers/optsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index bb74e12..da3a63d 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -303,7 +303,7 @@ class OptSolver:
                 problem.states.append(list(state))
                 problem.gvals.append(list(self.constr_vals).copy())
                 self.fvals.append(problem.obj(self.X))
-                self.xvals.append(self.X)
+                self.xvals.append(self.X.copy())
             end = time.time()
 
             if verb:
-- 
2.43.0


From 4a5c290eb853d931197fe72b720b664ddce2bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 017/214] fix: LP reports infeasible problems instead of
 reading a missing solution

---
 metku/optimization/solvers/lp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/solvers/lp.py b/metku/optimization/solvers/lp.py
index ce9e3c6..4f0c8ba 100644
--- a/metku/optimization/solvers/lp.py
+++ b/metku/optimization/solvers/lp.py
@@ -116,13 +116,14 @@ class LP(OptSolver):
                     
             if lp.Status == grb.GRB.OPTIMAL:
                 self.feasible = True
-            elif lp.Status == grb.GRB.INFEASIBLE:
+            else:
                 self.feasible = False
                     
             X = []
-            for v in lp.getVars():
-                #print('%s %g' % (v.varName, v.x))                    
-                X.append(v.x)
+            if self.feasible:
+                for v in lp.getVars():
+                    #print('%s %g' % (v.varName, v.x))
+                    X.append(v.x)
             
             # bounds = [x*self.move_limits for x in self.X]
             #
@@ -131,7 +132,8 @@ class LP(OptSolver):
             status = lp.Solve()
             
             X = []
-            if status == lp.OPTIMAL:
+            self.feasible = status == lp.OPTIMAL
+            if self.feasible:
                 for v in lp.variables():
                     X.append(v.solution_value())    
 
-- 
2.43.0


From 9fade345a8028054bee2fa7428b9b49040b958cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 018/214] fix: integer variables have branching values

---
 metku/optimization/variables.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index d374323..f4afd49 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -257,6 +257,14 @@ class IntegerVariable(Variable):
 
         return violation
 
+    def smaller_discrete_value(self, x):
+        """ Returns integer smaller than 'x' and closest to it  """
+        return math.ceil(x) - 1
+
+    def larger_discrete_value(self, x):
+        """ Returns integer larger than 'x' and closest to it  """
+        return math.floor(x) + 1
+
 
 class BooleanVariable(IntegerVariable):
     """ Class for boolean variables
-- 
2.43.0


From 7cb9a447a3e832bff49148360786357d9e10f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 019/214] fix: discrete neighbourhood consists of allowed
 values only

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 5415622..680ecec 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -847,7 +847,7 @@ class OptimizationProblem:
         for i, var in enumerate(self.vars):
             if method == 'nearest':
                 if isinstance(var,DiscreteVariable):
-                    values = np.array(var.values)
+                    values = np.array([val for val in var.values if var.lb <= val <= var.ub])
                     """ Sort values in ascending order of distance from 'x' 
                         np.argsort returns the indices of 'values'
                     """
@@ -865,7 +865,7 @@ class OptimizationProblem:
                         The sorting is the same as for discrete variables,
                         but here only lb and ub need to be updated.
                     """
-                    values = np.arange(var.lb,var.ub+1)
+                    values = np.arange(np.ceil(var.lb),np.floor(var.ub)+1)
                     sorted_ndx = np.argsort(abs(values-x[i]))
                     new_values = values[sorted_ndx[:k]].tolist()
                     neighborhood.append(new_values)
-- 
2.43.0


From eac057dfab885fd88a603ddb2ec9b9b4f5e60afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 020/214] fix: branch and bound incumbents satisfy constraints
 of every sense

---
 metku/optimization/solvers/bnb.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 3830fb3..2c08b94 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -418,9 +418,7 @@ class BnB(OptSolver):
         f_new = None        
         for xi in N:
             
-            gxi = self.problem.eval_cons(xi)            
-            
-            if all(gxi<=self.problem.con_tol):
+            if self.problem.feasible(xi):
                 #print("Upper bounding found feasible solution")
                 #print(self.problem.eval_cons(xi))
                 """ Feasible point found """
-- 
2.43.0


From 5e1a4b11200fc22d1e3aff289a40343e1ecf0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 021/214] fix: bounds tightening of branch and bound respects
 constraint sense and keeps allowed values

---
 metku/optimization/solvers/bnb.py | 96 ++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 32 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 2c08b94..3813949 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -28,6 +28,8 @@ from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
 from metku.optimization.variables import Variable, DiscreteVariable, BinaryVariable, IntegerVariable
 
 CON_TOL = 1e-4
+# Tolerance of the bounds obtained by bounds tightening
+BOUND_TOL = 1e-6
 
 # A class that represents an individual node in a 
 # Binary Tree 
@@ -515,6 +517,34 @@ class BnB(OptSolver):
         
         #self.tree.show()
         
+    def tighten_bounds(self,var,lb=-np.inf,ub=np.inf):
+        """ Tightens the bounds of variable 'var' to the allowed
+            values between 'lb' and 'ub'. The bounds 'lb' and 'ub' are
+            relaxed by a tolerance so that no allowed value is lost due to
+            rounding errors.
+            If there are no allowed values left, the bounds become contradictory.
+        """
+        lb = lb-BOUND_TOL
+        ub = ub+BOUND_TOL
+
+        if ub < var.ub:
+            if isinstance(var,IntegerVariable):
+                ub = np.floor(ub)
+            elif isinstance(var,DiscreteVariable):
+                ub = max([val for val in var.values if val <= ub],default=-np.inf)
+            var.ub = min(var.ub,ub)
+
+        if lb > var.lb:
+            if isinstance(var,IntegerVariable):
+                lb = np.ceil(lb)
+            elif isinstance(var,DiscreteVariable):
+                lb = min([val for val in var.values if val >= lb],default=np.inf)
+            var.lb = max(var.lb,lb)
+
+    def feasible_bounds(self):
+        """ Checks that every variable has values between its bounds """
+        return all(var.lb <= var.ub for var in self.problem.vars)
+
     def feasibility_tightening(self):
         """ Feasibility-based bounds tightening
             Based on linear constraints only        
@@ -525,26 +555,27 @@ class BnB(OptSolver):
         """ Do bounds tightening for linear constraints """
         for con in self.problem.cons:
             if isinstance(con,LinearConstraint):
-                ax_min = np.minimum(con.a*xub,con.a*xlb)
-                #axL = con.a*xlb
-                for i, var in enumerate(self.problem.vars):
-                    if abs(con.a[i]) > 1e-9:
-                        bnd = 1/con.a[i]*(con.b-(sum(ax_min)-ax_min[i]))
-                    if con.a[i] > 0:                        
-                        """ x[i] <= 1/a[i]*(b[j] - sum min(a[i,j]xub[j],a[i,j]xlb[j])) """
-                        var.ub = min(var.ub,bnd)
-                        
-                        if isinstance(var,IntegerVariable):
-                            var.ub = np.floor(var.ub)
-                        elif isinstance(var,DiscreteVariable):
-                            var.ub = max(np.array(var.values)[np.array(var.values)<=var.ub])
-                    elif con.a[i] < 0:
-                        var.lb = max(var.lb,bnd)
-                
-                        if isinstance(var,IntegerVariable):
-                            var.lb = np.ceil(var.lb)
-                        elif isinstance(var,DiscreteVariable):
-                            var.lb = min(np.array(var.values)[np.array(var.values)>=var.lb])
+                """ Write the constraint in the form a*x <= b.
+                    An equality constraint gives two such inequalities.
+                """
+                rows = []
+                if con.type != '>':
+                    rows.append((con.a,con.b))
+                if con.type != '<':
+                    rows.append((-con.a,-con.b))
+
+                for a, b in rows:
+                    ax_min = np.minimum(a*xub,a*xlb)
+                    #axL = con.a*xlb
+                    for i, var in enumerate(self.problem.vars):
+                        if abs(a[i]) > 1e-9:
+                            bnd = 1/a[i]*(b-(sum(ax_min)-ax_min[i]))
+
+                            if a[i] > 0:
+                                """ x[i] <= 1/a[i]*(b[j] - sum min(a[i,j]xub[j],a[i,j]xlb[j])) """
+                                self.tighten_bounds(var,ub=bnd)
+                            else:
+                                self.tighten_bounds(var,lb=bnd)
         
         xlb, xub = self.problem.var_bounds()
         #print(xlb,xub)
@@ -583,7 +614,10 @@ class BnB(OptSolver):
                 if solver.X[i] > self.problem.vars[i].lb:
                     print("Increasing lower bound of {0:s}".format(self.problem.vars[i].name))
                     print("From {0:4.2f} to {1:4.2f}".format(self.problem.vars[i].ub,solver.X[i]))
-                    self.problem.vars[i].lb = solver.X[i]
+                    self.tighten_bounds(var,lb=solver.X[i])
+
+                    if var.lb > var.ub:
+                        return
             
             
             #print(solver.X)
@@ -597,7 +631,10 @@ class BnB(OptSolver):
                 if solver.X[i] < self.problem.vars[i].ub:
                     print("Lowering upper bound of {0:s}".format(self.problem.vars[i].name))
                     print("From {0:4.2f} to {1:4.2f}".format(self.problem.vars[i].ub,solver.X[i]))
-                    self.problem.vars[i].ub = solver.X[i]
+                    self.tighten_bounds(var,ub=solver.X[i])
+
+                    if var.lb > var.ub:
+                        return
                     
             #print(solver.X)
             
@@ -605,16 +642,11 @@ class BnB(OptSolver):
     def pre_process(self,node):
         """ Pre-processing of a node """
         self.feasibility_tightening()
-        self.optimality_tightening()
-        
-        feasible = True
-        
-        for var in self.problem.vars:
-            if var.lb > var.ub:
-                feasible = False
-                break
-        
-        return feasible
+
+        if self.feasible_bounds():
+            self.optimality_tightening()
+
+        return self.feasible_bounds()
     
     def post_process(self,node):
         """ Post-processing of a node """
-- 
2.43.0


From 44a72f64bebdc3bde86d651f89371d2ad44a8d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 022/214] fix: optimality tightening leaves the constraints in
 their problem

---
 metku/optimization/solvers/bnb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 3813949..39947c9 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -601,7 +601,8 @@ class BnB(OptSolver):
             
             for con in self.problem.cons:            
                 if isinstance(con,LinearConstraint):
-                    LPprob.add(con)
+                    # The constraint still belongs to the original problem
+                    LPprob.cons.append(con)
             
             
             solver = LP("gurobi")
-- 
2.43.0


From 9d5a632bfd21830fc591068cac50c4e2dfbefdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 023/214] fix: lower bounding works without a starting point

---
 metku/optimization/solvers/bnb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 39947c9..012cce9 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -376,8 +376,9 @@ class BnB(OptSolver):
         if len(locked_nd) > 1:
             locked_nd.reverse()
         
-        for n in locked_nd:
-            x0 = np.delete(x0,n)        
+        if x0 is not None:
+            for n in locked_nd:
+                x0 = np.delete(x0,n)
     
         print('x0 = ',x0)
     
-- 
2.43.0


From 361446b882b1997078704533747cf4588c02adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 024/214] fix: branching when values are close to allowed
 values

---
 metku/optimization/solvers/bnb.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 012cce9..a20eaf4 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -492,6 +492,14 @@ class BnB(OptSolver):
                         branching_var = var                    
                         xr = xR[i] 
         
+        if branching_var is None:
+            """ All values are within the discreteness tolerance:
+                branch with respect to a variable not at an allowed value
+            """
+            var_ndx = self.variables_at_discrete_values(node.data).index(False)
+            branching_var = self.problem.vars[var_ndx]
+            xr = xR[var_ndx]
+
         var_ndx = self.problem.vars.index(branching_var)
         
         """ Create branching values """
-- 
2.43.0


From dfba3939025a25a560ced6e6bcc3354a991083bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 025/214] fix: random designs stay within changed bounds of
 discrete variables

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 680ecec..b5e7e11 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -285,9 +285,9 @@ class OptimizationProblem:
 
         for i, var in enumerate(self.vars):
             if isinstance(var,IntegerVariable) or isinstance(var,IndexVariable):
-                xrand[i] = rng.integers(var.lb,var.ub+1)
+                xrand[i] = rng.integers(np.ceil(var.lb),np.floor(var.ub)+1)
             elif isinstance(var, DiscreteVariable):
-                possible_values = var.values
+                possible_values = [val for val in var.values if var.lb <= val <= var.ub]
                 random_value = (var.ub - var.lb) * rng.random() + var.lb
                 xrand[i] = min(possible_values, key=lambda x:abs(x-random_value))
             else:
-- 
2.43.0


From fd588eed1f49c51b684d20b0ddfe362b1d80bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 026/214] fix: exterior penalty scales equality constraints by
 the penalty factor

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index b5e7e11..ba01dd6 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -935,7 +935,7 @@ class OptimizationProblem:
                     """ For equality constraints, the penalty term
                         is simply the value of the constraint squared
                     """
-                    F += val**p
+                    F += R*abs(val)**p
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is square of max(0,val)
-- 
2.43.0


From 4ac6bd7c9ce7e72d2137e1e77ee0a2dfae37ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 027/214] fix: particles are rounded to the values of their own
 variables

---
 metku/optimization/solvers/pso.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/solvers/pso.py b/metku/optimization/solvers/pso.py
index 56fc7d9..df5902d 100644
--- a/metku/optimization/solvers/pso.py
+++ b/metku/optimization/solvers/pso.py
@@ -15,6 +15,7 @@ from deap import base, creator, tools
 
 
 from metku.optimization.solvers.optsolver import OptSolver, G_TOL
+from metku.optimization.variables import DiscreteVariable, IntegerVariable
 
 
 class PSO(OptSolver):
@@ -385,13 +386,14 @@ class Particle:
         # (Perhaps the velocity should be changed instead?)
 
         self.x = np.minimum(np.maximum(xnew,xlb),xub)
-        type_of_problem = problem.type_of_vars()
 
-        if type_of_problem == "DiscreteVariable":
-            possible_values = problem.vars[0].values
-            # Round values
-            self.x = np.array([min(possible_values, key=lambda x: abs(x - var))
-                      for var in self.x])
+        # Round values of discrete and integer variables
+        for i, var in enumerate(problem.vars):
+            if isinstance(var, DiscreteVariable):
+                possible_values = [val for val in var.values if var.lb <= val <= var.ub]
+                self.x[i] = min(possible_values, key=lambda val: abs(val - self.x[i]))
+            elif isinstance(var, IntegerVariable):
+                self.x[i] = min(max(round(self.x[i]), np.ceil(var.lb)), np.floor(var.ub))
     
     def update_best(self):
         """ Updates the best value found so far """
-- 
2.43.0


From 85f6db44f86c8685baf0645ffe407fb9dd42a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 028/214] fix: best of an infeasible swarm is the least
 violating particle

---
 metku/optimization/solvers/pso.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/pso.py b/metku/optimization/solvers/pso.py
index df5902d..bda20a9 100644
--- a/metku/optimization/solvers/pso.py
+++ b/metku/optimization/solvers/pso.py
@@ -109,7 +109,8 @@ class PSO(OptSolver):
         for part in self.swarm:
             """ If a new best solution has been found, store it """
             if self.best_scv > G_TOL:
-                if part.scv <= G_TOL:
+                # Until a feasible particle is found, the least infeasible one is the best
+                if part.scv < self.best_scv:
                     self.best_part = part
                     self.best_x = copy.deepcopy(part.x)            
                     self.best_f = copy.deepcopy(part.fval)
-- 
2.43.0


From 338025112db1b953f661bc384c8db808e5f59ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 029/214] fix: best design of the genetic algorithm consists of
 the free variables

---
 metku/optimization/solvers/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index e5d1cff..da81ba3 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -130,7 +130,7 @@ class GA(OptSolver):
                 ind[i] = x
             self.best_ind = ind
             self.prev_best = self.best_f
-            best_x = [var.value for var in self.problem.all_vars]
+            best_x = [var.value for var in self.problem.vars]
             self.best_x = best_x.copy()
             self.best_f = val
             self.counter = 0
-- 
2.43.0


From bd4c21d6e14cf714b41dae55013fe33b82cc2334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 030/214] fix: genetic algorithm penalises violated constraints
 of every type

---
 metku/optimization/solvers/ga.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index da81ba3..d582929 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -115,6 +115,12 @@ class GA(OptSolver):
         """ Evaluate constraints """
         constr_vals = self.problem.eval_cons(X)
         """ Apply penalty on constraints """
+        for i, con in enumerate(self.problem.cons):
+            # Make positive values mean violation for every type of constraint
+            if con.type == '>':
+                constr_vals[i] = -constr_vals[i]
+            elif con.type == '=':
+                constr_vals[i] = abs(constr_vals[i])
         penalty_val = self.penalty(constr_vals)
 
         """ Fitness function equals objective function value + penalty """
-- 
2.43.0


From 10d22e912fbdec9b0fbc4e063cf5a9f8ecafeddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 031/214] fix: genes of the initial population belong to their
 own variables

---
 metku/optimization/solvers/ga.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index d582929..e49673c 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -155,13 +155,15 @@ class GA(OptSolver):
         """
         creator.create("Individual", list, fitness=creator.FitnessMin)
 
-    def attribute_generator(self, counter_list=[0]):
+    def attribute_generator(self, counter_list=None):
         """
         Generates one gene attribute
         :param counter_list: list used for counting how
                              many times function has been called
         :return:
         """
+        if counter_list is None:
+            counter_list = self.gene_counter
         idx = counter_list[0] % len(self.problem.vars)
         counter_list[0] = counter_list[0] + 1
 
@@ -171,7 +173,7 @@ class GA(OptSolver):
         if self.x0 is not None:
             val = self.x0[idx]
         elif isinstance(var, (IndexVariable, IntegerVariable)):
-            val = np.random.randint(var.lb, var.ub)
+            val = np.random.randint(var.lb, var.ub + 1)
 
         else:
             val = np.random.uniform(var.lb, var.ub)
@@ -186,6 +188,8 @@ class GA(OptSolver):
                 3. arguments to be passed to the aliased method
 
         """
+        # Genes are generated one variable at a time, starting from the first
+        self.gene_counter = [0]
         self.toolbox.register("attribute", self.attribute_generator)
 
         self.toolbox.register("individual", tools.initRepeat,
-- 
2.43.0


From fc23f5d86a1a693b4d3f17a34b9c7c38043078d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 032/214] fix: element stiffness follows changed releases

---
 metku/framefem/elements/ebbeam.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 1bc43eb..8b1ab22 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -11,10 +11,6 @@ Euler-Bernoulli beam element in 2D
 """
 
 import numpy as np
-from functools import lru_cache
-
-CACHE_BOUND = 2**10
-
 #try:
 #    from metku.framefem import Element, LineLoad, FEMNode
 #except:
@@ -93,7 +89,6 @@ class EBBeam(Element):
         return np.append(self.nodes[0].dofs,self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Generates stiffness matrix in local coordinates
 
-- 
2.43.0


From a5e95ce27903d68e20f3fce5cb9c21fe9d53374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 033/214] fix: internal forces take all current loads of an
 element into account

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 2 +-
 metku/framefem/elements/ebbeam.py             | 8 ++++----
 metku/framefem/framefem.py                    | 4 ++++
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index abfdf1c..288d6a8 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -313,7 +313,7 @@ class EBSemiRigidBeam(EBBeam):
             floc[rel] = 0
 
             # Store local loads
-        self.floc[load.sid] = floc
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 8b1ab22..6b6acd6 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -503,8 +503,8 @@ class EBBeam(Element):
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0            
 
-        # Store local loads
-        self.floc[load.sid] = floc
+        # Store local loads: there can be several loads in a load case
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
@@ -961,8 +961,8 @@ class EBBeam3D(Element):
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0            
 
-        # Store local loads
-        self.floc[load.sid] = floc
+        # Store local loads: there can be several loads in a load case
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 16b4e91..2445385 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -512,6 +512,10 @@ class FrameFEM:
         """ Initialize load vector """
         global_load = np.zeros(self.dofs)
 
+        # Element loads of this load case are collected anew
+        for elem in self.elements:
+            elem.floc.pop(sid, None)
+
         for load in self.loads:
             """ Get the loads to be added to the vector 
                 and the global degrees of freedom of these loads
-- 
2.43.0


From 32318d7f8ac5c3b946359aef0c4de289ed66c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 034/214] fix: factor of a line load in global coordinates is
 applied once

---
 metku/framefem/elements/ebbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 6b6acd6..690d8d7 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -418,7 +418,7 @@ class EBBeam(Element):
                     #q = np.array([0, q1, 0])
                     q = np.array([0, 1, 0])
                 # Load vector transformed into element local coordinate system
-                qloc = load.f*T[:3, :3].dot(q)
+                qloc = T[:3, :3].dot(q)
                                 
                 if order == 1:
                     """ Loads perpendicular to the axis of the element """
-- 
2.43.0


From 5c1587366999151389d0e57b22df229dd3ee7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 035/214] fix: line loads in the local axial direction are not
 ignored

---
 metku/framefem/elements/ebbeam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 690d8d7..23824b1 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -379,6 +379,8 @@ class EBBeam(Element):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5*L*(0.5*(q1+q2)-1/6*(q2-q1))
+                    floc[3] = 0.5*L*(0.5*(q1+q2)+1/6*(q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     if order == 1:
-- 
2.43.0


From b6ebab2b7f01288c144032b50318e049dd9f15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 036/214] fix: displacements of newly supported dofs are zero

---
 metku/framefem/framefem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 2445385..ce7e115 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -675,6 +675,9 @@ class FrameFEM:
             """
         elif support_method == 'REM':
             for i, lc in enumerate(lcase):                
+                for node in self.nodes:
+                    # Displacements of supported dofs are zero
+                    node.u[lc] = np.zeros(len(node.dofs))
                 for ui, d in zip(u[:,i],self.glob_dofs):                
                     for node in self.nodes:
                         try:
-- 
2.43.0


From 460642f0800419b813a2ec3ccef97624b8fa4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 037/214] fix: nodes and elements added after an analysis get
 their degrees of freedom

---
 metku/framefem/framefem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index ce7e115..5a3dfa0 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -177,6 +177,7 @@ class FrameFEM:
             self.nodal_coords.append([x, y])            
             for load_id in self.loadcases.keys():   
                 newNode.u[load_id] = np.zeros(len(newNode.dofs))
+                newNode.u2[load_id] = np.zeros(len(newNode.dofs))
                 #newNode.u[load_id] = [0.0, 0.0, 0.0]
         else:
             self.dim = 3
@@ -185,6 +186,8 @@ class FrameFEM:
             #    newNode.u = np.vstack((newNode.u, [0.0, 0.0, 0.0, 0.0, 0.0, 0.0]))
 
         self.nodes.append(newNode)
+        # degrees of freedom must be numbered again
+        self.dofs = 0
         return newNode
 
     @property
@@ -252,6 +255,8 @@ class FrameFEM:
             new_elem.add_loadcase(lcase)
         
         self.elements.append(new_elem)
+        # degrees of freedom must be numbered again
+        self.dofs = 0
         
 
     def add_support(self, sid, nid, dof, val=0):
-- 
2.43.0


From d4955bc28ee3f2f4c46652eb40d6495b8c3b7738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 038/214] fix: nodes created with integer coordinates can be
 moved to any point

---
 metku/framefem/framefem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 5a3dfa0..0a3b27c 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1480,8 +1480,8 @@ class FEMNode:
         
         """ Nodal coordinates"""
         if z is not None:
-            self.coord = np.array([x, y, z])
-            self.X = np.array([x, y, z])
+            self.coord = np.array([x, y, z], dtype=float)
+            self.X = np.array([x, y, z], dtype=float)
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
             self.dofs = -np.ones(6)
@@ -1489,8 +1489,8 @@ class FEMNode:
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
         else:
-            self.coord = np.array([x, y])
-            self.X = np.array([x, y])
+            self.coord = np.array([x, y], dtype=float)
+            self.X = np.array([x, y], dtype=float)
             self.dofs = np.array([-1, -1, -1])
             # [Ux, Uy, Uz]
             self.v = np.array([0,0,0])
-- 
2.43.0


From 66ac11e4458867ba044c4a9ae150d9d1f15d227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 039/214] fix: linear statics works with supports handled by
 zeroing rows

---
 metku/framefem/framefem.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 0a3b27c..2f2d3f0 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -653,6 +653,10 @@ class FrameFEM:
         #Kc, low = sp.linalg.cho_factor(K)
         #uc = sp.linalg.cho_solve((Kc, low), p)
 
+        if support_method == 'ZERO':
+            self.K = K
+            self.p = np.column_stack(loads)
+
         # print(f'K shape {K.shape}')
         # print(f'K {K}')
         # print(f'p {p}')
@@ -670,9 +674,11 @@ class FrameFEM:
                 # Find free dofs
                 free_dofs = dofs >= 0
                 # Substitute free dofs from global displacement vector                        
-                for i, free_dof in enumerate(free_dofs):
-                    if free_dof:
-                        node.u[lcase][i] = u[dofs[i]]
+                for j, lc in enumerate(lcase):
+                    node.u[lc] = np.zeros(len(dofs))
+                    for i, free_dof in enumerate(free_dofs):
+                        if free_dof:
+                            node.u[lc][i] = u[dofs[i], j]
 
             """
             This substition did not work !!!
-- 
2.43.0


From 9c5b69b06502cb0ade7d8dee6176aa5287dec3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 040/214] fix: every load and load case identifier is
 registered once in a frame

The identifier of a new load case was appended twice, a generated load name
could replace another load, loads of a load case were skipped when another load
had the same name, and a load case replaced one with the same id and its loads.
---
 metku/raami/raami.py | 65 ++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 38 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index f535a59..7d55b10 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -131,12 +131,18 @@ class Raami:
 
         """
 
+        old_case = self.load_cases.get(loadcase.load_id)
         self.load_cases[loadcase.load_id] = loadcase
         if not (loadcase.load_id in self.load_ids):
             self.load_ids.append(loadcase.load_id)
 
+        # Loads already added to a load case with the same id stay in it
+        if old_case is not None:
+            for load in old_case.loads:
+                loadcase.add(load)
+
         for load in loadcase.loads:
-            if load.name not in self.loads:
+            if not any(load is old for old in self.loads.values()):
                 self.add(load)
 
     def add_loadcombination(self, loadcombination: LoadCombination) -> None:
@@ -145,34 +151,33 @@ class Raami:
         self.load_combs[loadcombination.comb_id] = loadcombination
         loadcombination.combine_loads()
 
+    def register_load(self, load) -> None:
+        """ Adds load to the loads of the frame under a unique name and to
+            its load case, which is created if it does not exist.
+            A load that is already included in the frame is not added again.
+        """
+        if not any(load is old for old in self.loads.values()):
+            name = load.name
+            n = len(self.loads)
+            while load.name in self.loads:
+                load.name = name + str(n)
+                n += 1
+            self.loads[load.name] = load
+
+        if load.load_id in self.load_cases:
+            self.load_cases[load.load_id].add(load)
+        else:
+            self.add(LoadCase(load_id=load.load_id, loads=[load]))
+
     def add_pointload(self, pointload:PointLoad) -> None:
         """ If a point load with same 'name' is already included
                         in the frame, add a number to the end of the name
                         of the new load such that each point load has a unique
                         name.
-
-                        NOTE: using 'len' to provide new id number might fail,
-                        if point loads are deleted such that the number of point loads
-                        changes along the way.
                     """
 
 
-        if pointload.name in self.loads.keys():
-            pointload.name += str(len(self.loads))
-
-        if pointload not in self.loads.values():
-            self.loads[pointload.name] = pointload
-
-        if not (pointload.load_id in self.load_ids):
-            # There is no load case for the new load.
-            # Add a new load case for this load
-            NewLoadCase = LoadCase(load_id=pointload.load_id, loads=[pointload])
-            self.add(NewLoadCase)
-            self.load_ids.append(pointload.load_id)
-        else:
-            # If a load case with this.load_id exists, add the new
-            # load to that load case
-            self.load_cases[pointload.load_id].add(pointload)
+        self.register_load(pointload)
 
 
 
@@ -186,23 +191,7 @@ class Raami:
 
     def add_lineload(self, lineload: LineLoad | PWLineLoad) -> None:
 
-        if lineload.name in self.loads.keys():
-            lineload.name += str(len(self.loads))
-
-        self.loads[lineload.name] = lineload
-
-
-        if not (lineload.load_id in self.load_ids):
-
-            NewLoadCase = LoadCase(load_id=lineload.load_id, loads=[lineload])
-
-            self.add(NewLoadCase)
-            self.load_ids.append(lineload.load_id)
-        else:
-            # If a load case with this.load_id exists, add the new
-            # load to that load case
-            self.load_cases[lineload.load_id].add(lineload)
-
+        self.register_load(lineload)
 
 
     def add_support(self, support: Support) -> None:
-- 
2.43.0


From 57e960d7d192f8dc122b822b9a05e232a2df425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 041/214] fix: adding self-weight again replaces the earlier
 self-weight loads

Removing the self-weight only reset a flag, so its loads stayed in the frame and
were applied once more every time the self-weight was added.
---
 metku/raami/frame_member.py |  9 ++++++---
 metku/raami/raami.py        | 11 +++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b452861..e6fcd26 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -175,7 +175,7 @@ class FrameMember:
         self.costs = {}
         
         self.self_weight = False
-        
+        self.self_weight_load = None
         
         
     def __repr__(self):        
@@ -323,14 +323,17 @@ class FrameMember:
             
             # Default units: N/mm
             value = -self.cross_section.self_weight()
-            self.frame.add(LineLoad(self, [value, value], 'y',load_id,ltype='dead',
-                                    name='self-weight'))
+            self.self_weight_load = LineLoad(self, [value, value], 'y',load_id,ltype='dead',
+                                             name='self-weight')
+            self.frame.add(self.self_weight_load)
 
     def remove_self_weight(self):
         """ Removes self-weight from loads
         """
         if self.self_weight:
             self.self_weight = False
+            self.frame.remove_load(self.self_weight_load)
+            self.self_weight_load = None
         
     def recalculate_coordinates(self):
         """ Clear global node coordinates and recalculate those """
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 7d55b10..f81882d 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -169,6 +169,17 @@ class Raami:
         else:
             self.add(LoadCase(load_id=load.load_id, loads=[load]))
 
+    def remove_load(self, load) -> None:
+        """ Removes load from the frame, its load case and its member """
+        for key in [key for key, old in self.loads.items() if old is load]:
+            del self.loads[key]
+
+        for loadcase in self.load_cases.values():
+            loadcase.loads = [old for old in loadcase.loads if old is not load]
+
+        if hasattr(load, 'member'):
+            load.member.loads = [old for old in load.member.loads if old is not load]
+
     def add_pointload(self, pointload:PointLoad) -> None:
         """ If a point load with same 'name' is already included
                         in the frame, add a number to the end of the name
-- 
2.43.0


From 168f8a41fa1f55004873831dd1bc42223f39a86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 042/214] fix: hinges of a member belong to that member only

The default list of hinges was shared by all members, so a hinge added to one
member appeared at every other member created without hinges.
---
 metku/raami/frame_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index e6fcd26..b0d3184 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -167,7 +167,7 @@ class FrameMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        self.hinges = list(hinges)
         
         # Flag stating whether or not the member can buckle in sway mode
         self.sway = sway
@@ -916,7 +916,7 @@ class MultiSpanMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        self.hinges = list(hinges)
         
         self.sway = sway
         
-- 
2.43.0


From d0fe72eaa51a89f04ad07359d2492b4a1e00c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 043/214] fix: coordinates of a frame node are its own floating
 point numbers

Integer coordinates truncated later values and an array given as coordinates
was shared with its creator and with other nodes.
---
 metku/raami/frame_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 5019de1..852c38a 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -33,7 +33,7 @@ class FrameNode:
             coordinates = coordinates[0]
         
         self.node_id = ""
-        self.coords = np.asarray(coordinates)
+        self.coords = np.array(coordinates, dtype=float)
         self.fem_node = None
         
         self.members = [] # List of members to which the node is connected
-- 
2.43.0


From f8b9055865d9e9fd85f18402c8160e88439342cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 044/214] fix: moving a frame node moves the internal nodes of
 its members

The analysis model kept the internal nodes at their old places, so members got
kinks; members without a design member could not be moved at all.
---
 metku/raami/frame_member.py | 8 ++++++++
 metku/raami/frame_node.py   | 9 ++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b0d3184..d59624c 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -340,6 +340,14 @@ class FrameMember:
         self.global_node_coords.clear()
         self.calc_nodal_coordinates()
 
+        # Move also the internal nodes of an existing FEM model
+        if len(self.fem_nodes) == len(self.global_node_coords):
+            for node, coord in zip(self.fem_nodes[1:-1], self.global_node_coords[1:-1]):
+                node.x = coord[0]
+                node.y = coord[1]
+                if len(coord) > 2:
+                    node.z = coord[2]
+
     def calc_nodal_coordinates(self, num_elements=0):
         """ Calculates nodal coordinates along the member 
             
diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 852c38a..ecbaac2 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -61,7 +61,8 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if mem.member is not None:
+                mem.member.length = mem.length()
         
     @property
     def y(self):
@@ -79,7 +80,8 @@ class FrameNode:
         # Update connected member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if mem.member is not None:
+                mem.member.length = mem.length()
     
     @property
     def z(self):
@@ -98,7 +100,8 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if mem.member is not None:
+                mem.member.length = mem.length()
     
     def plot(self, print_text=True, marker='ok', axes=None):
         """ Plots the node """
-- 
2.43.0


From 2b5b163e3516889bfe57098cc7889fafa0f17eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 045/214] fix: piecewise line load divides members of any
 direction at the right point

Only the x coordinate was compared, so vertical members got the first value
everywhere and members running to the left got the values swapped.
---
 metku/raami/frame_loads.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 6171533..9073165 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -366,16 +366,17 @@ class PWLineLoad(Load):
         """ Add the load to the FEM model """
         #k = self.calc_k()
         qval = self.f*self.values
-        xdiv = self.member.local_to_global(self.xdiv)[0]
+        tol = 1e-9
         
         for elem in self.member.fem_elements:
-            X = [elem.nodes[0].x,elem.nodes[1].x]
+            # Local coordinates of the element ends along the member
+            X = [self.member.global_to_local(node.coord) for node in elem.nodes]
             X.sort()
-            if X[1] <= xdiv:
+            if X[1] <= self.xdiv + tol:
                 q = qval[0]
-            elif X[0] >= xdiv:
+            elif X[0] >= self.xdiv - tol:
                 q = qval[1]
-            elif X[0] < xdiv and X[1] >= xdiv:
+            else:
                 nd = np.argmax(abs(qval))
                 q = qval[nd]
                 
-- 
2.43.0


From 2e6cdcef722b416433919e804e6bbc0039dec94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 046/214] fix: leading variable load case is found among the
 current loads

An empty load case was taken as the leading one, and load cases filled after
creating the combination were not considered.
---
 metku/raami/frame_loads.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 9073165..d0334c2 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -93,7 +93,7 @@ class LoadCombination:
     """ Class for load combinations """
     
     
-    def __init__(self,comb_id,comb_type='ULS',load_cases=[]):
+    def __init__(self,comb_id,comb_type='ULS',load_cases=None):
         """
         
         Parameters
@@ -114,16 +114,19 @@ class LoadCombination:
         
         self.comb_id = comb_id
         self.comb_type = comb_type
-        self.load_cases = load_cases
+        self.load_cases = [] if load_cases is None else load_cases
         self.lead_variable_load = None
+        self.find_lead_variable_load()
+        
+        self.frame = None
 
-        # The first non-dead load is the leading variable load case.
-        for lc in load_cases:
-            if not lc.load_type == 'DEAD':
+    def find_lead_variable_load(self):
+        """ The first load case with variable loads is the leading one. """
+        self.lead_variable_load = None
+        for lc in self.load_cases:
+            if lc.load_type is not None and lc.load_type != 'DEAD':
                 self.lead_variable_load = lc
                 break
-        
-        self.frame = None
 
     def clear_loads(self):
         """
@@ -141,6 +144,7 @@ class LoadCombination:
         """
         # Clear loads with same comb_id to prevent adding same load multiple times
         self.clear_loads()
+        self.find_lead_variable_load()
         for lc in self.load_cases:
             # Do the load factorization for given load case
             # combo_loads is a list of factored loads.
-- 
2.43.0


From dcabedb092bd7dddde3f5699ef7a749e5817c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 047/214] fix: combining again removes the earlier combined
 loads from their load case

---
 metku/raami/frame_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index d0334c2..3da9b21 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -135,7 +135,7 @@ class LoadCombination:
         keys_to_delete = [key for key, load in self.frame.loads.items() if load.load_id == self.comb_id]
 
         for key in keys_to_delete:
-            del self.frame.loads[key]
+            self.frame.remove_load(self.frame.loads[key])
 
     def combine_loads(self):
         """ Does the actual load combination:
-- 
2.43.0


From b9249dee99c42c4021a68d0fef9c7bd8f6a3ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 048/214] fix: combination factor multiplies the scaling factor
 of the load

The scaling factor given to a load was lost in its combined load.
---
 metku/raami/frame_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 3da9b21..7044a76 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -210,7 +210,7 @@ class Load:
             if comb_type == 'ULS':
                 factor = 1.15
         
-        self.f = factor
+        self.f *= factor
             
 
 class PointLoad(Load):
-- 
2.43.0


From 06f62e5f9ed358a64f7a6cc27e1b1e352c41a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 049/214] fix: groups created empty do not share their members

---
 metku/raami/frame_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index d59624c..ed3b8bc 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1388,7 +1388,7 @@ class MemberGroup:
         and optimization.
     """
     
-    def __init__(self,members=[],name="Group"):
+    def __init__(self,members=None,name="Group"):
         """
         
 
@@ -1405,6 +1405,7 @@ class MemberGroup:
 
         """
 
+        members = [] if members is None else members
         self.members = members
         if len(members) == 0:
             self.cross_section = None
-- 
2.43.0


From af838f2c084892009ac89c746bc2dc699bc0522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 050/214] fix: member of one element can be hinged at both ends

The release of the last end replaced the one of the first end.
---
 metku/raami/frame_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index ed3b8bc..6b7b58c 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -639,7 +639,7 @@ class FrameMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
     
     def clear_fem(self):
         """ Removes FEM nodes and elements """
@@ -1093,7 +1093,7 @@ class MultiSpanMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]    
+            self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]    
     
     def clear_fem(self):
         
-- 
2.43.0


From 54ef5183030658ee9f35eef309a5e5ab5d3e6b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:51 +0000
Subject: [PATCH 051/214] fix: characteristic combination is chosen by its own
 factors

The value of a characteristic combination was summed with the quasi-permanent
factors, so it did not match the reported factors and the governing one could be
missed.
---
 metku/eurocodes/en1991/en1991.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1991/en1991.py b/metku/eurocodes/en1991/en1991.py
index 70a633e..0645e30 100644
--- a/metku/eurocodes/en1991/en1991.py
+++ b/metku/eurocodes/en1991/en1991.py
@@ -373,7 +373,7 @@ class SLSCombiner(Combiner):
                 if l is not lo:
                     case2qi.append({'load': lo, 'factor': lo[0].comb_factors[0]})
                     case3qi.append({'load': lo, 'factor': lo[0].comb_factors[2]})
-            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 2),
+            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 0),
                                                'combination': {'G': case1, 'Q1': case2q1, 'Qi': case2qi}})
             frequent_combination.append({'value': self.sum_G_k() + l[0].combined(1) + self.sum_Q_k_excluding(l[0], 2),
                                          'combination': {'G': case1, 'Q1': case3q1, 'Qi': case3qi}})
-- 
2.43.0


From a03fa70956face07fe0d1425a1c3d809d80b4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:51 +0000
Subject: [PATCH 052/214] fix: governing combination without loads gives an
 empty result

---
 metku/eurocodes/en1991/en1991.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/eurocodes/en1991/en1991.py b/metku/eurocodes/en1991/en1991.py
index 0645e30..3509df3 100644
--- a/metku/eurocodes/en1991/en1991.py
+++ b/metku/eurocodes/en1991/en1991.py
@@ -228,6 +228,10 @@ class Combiner(ABC):
             if max(load[2]) > max_load_id:
                 max_load_id = max(load[2])
 
+        if max_load_id is None:
+            # No load takes part in the combination
+            return {'x': [], 'y': []}
+
         loads_by_id = [None] * (max_load_id + 1)
         qval_y = [None] * (max_load_id + 1)
         qval_x = [None] * (max_load_id + 1)
-- 
2.43.0


From 6c8e97a00394b21c0ed6baa642b2399c409c3a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 053/214] fix: material of a section can be given as a Steel
 object

---
 metku/sections/steel/steel_section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index 5898d3f..91f513c 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -153,6 +153,8 @@ class SteelSection(metaclass=ABCMeta):
             self.__material = Steel(val)
         elif isinstance(val, (float, int)):
             self.__material = Steel("S" + str(int(val)))
+        elif isinstance(val, Steel):
+            self.__material = val
 
     @property
     def G(self):
-- 
2.43.0


From ba3142fcc5622e1455494b3b914f62f67bab4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 054/214] fix: elements of a member follow its material

---
 metku/raami/frame_member.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 6b7b58c..d6791a9 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -209,6 +209,16 @@ class FrameMember:
     def material(self,val):
         """ Set member material """
         self.cross_section.material = val
+        
+        # Other members can have the same section
+        if self.frame is None:
+            members = [self]
+        else:
+            members = [self] + list(self.frame.members.values())
+        
+        for mem in members:
+            if mem.cross_section is self.cross_section:
+                mem.update_element_sections()
     
     @property
     def lcr(self):
@@ -651,6 +661,7 @@ class FrameMember:
         if len(self.fem_elements) > 0:
             for element in self.fem_elements:
                 element.section = self.cross_section
+                element.material = self.material
     
     def plot(self, print_text=True, c='k', axes=None, mem_dim=False, dy = 50):
         
-- 
2.43.0


From 71fce3fb936b6eb363e10e05505333e892a4615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 055/214] fix: elements of the symmetric member follow its
 section

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index d6791a9..2ec059e 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -198,7 +198,7 @@ class FrameMember:
             self.symmetry_pair.__cross_section = val
             if not self.symmetry_pair.member is None:
                 self.symmetry_pair.member.profile = val
-                self.symmetry_pair.update_element_sections()
+            self.symmetry_pair.update_element_sections()
             
     @property
     def material(self):
-- 
2.43.0


From ad1857c35016e45a872c13baa4d0f8c1b05787e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 056/214] fix: material of a group or multi-span member is
 given to its members

---
 metku/raami/frame_member.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 2ec059e..49e7a09 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -973,6 +973,12 @@ class MultiSpanMember:
         """ Material of the member """
         return self.cross_section.material
     
+    @material.setter
+    def material(self,val):
+        """ Set member material """
+        for mem in self.members:
+            mem.material = val
+    
     def plot(self, print_text=True, c='k', axes=None, mem_dim=False, dy = 50):
         
         if axes is None:
@@ -1454,7 +1460,7 @@ class MemberGroup:
         self.__cross_section.material = val
         if len(self.members) > 0:
             for mem in self.members:
-                mem.cross_section.material = val
+                mem.material = val
             
     def add_member(self,new_member):
         
-- 
2.43.0


From 7906a472f1a0353f61ce1159971a5921eeb260cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 057/214] fix: material of a group is not given to a section
 its members no longer have

---
 metku/raami/frame_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 49e7a09..f2e2ae0 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1457,10 +1457,11 @@ class MemberGroup:
     @material.setter
     def material(self,val):
         """ Set member material """
-        self.__cross_section.material = val
         if len(self.members) > 0:
             for mem in self.members:
                 mem.material = val
+        else:
+            self.__cross_section.material = val
             
     def add_member(self,new_member):
         
-- 
2.43.0


From 4959a901964cc928800bf5ae8832b87bd983ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 058/214] fix: circular hollow sections have their properties
 for both axes

---
 metku/sections/steel/CHS.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index c025439..e1190a3 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -12,6 +12,8 @@ Circular hollow sections
 
 import math
 
+import numpy as np
+
 
 from metku.eurocodes.en1993 import en1993_1_1
 from metku.sections.steel.steel_section import SteelSection
@@ -39,7 +41,8 @@ class CHS(SteelSection):
         self.It = self.torsion_modulus()
         self.Iw = 0.0
 
-        super().__init__(fy,A,I,Au,Wpl,Wel,Ashear)
+        # Properties are the same with respect to both axes
+        super().__init__(fy,A,[I,I],Au,[Wpl,Wpl],[Wel,Wel],[Ashear,Ashear])
         
 
         self.imp_factor = [en1993_1_1.buckling_curve["c"],en1993_1_1.buckling_curve["c"]]
@@ -97,21 +100,21 @@ class CHS(SteelSection):
     def flange_class(self, verb=False):
         return 1
     
-    def bending_resistance(self, C=0, verb=False):
+    def bending_resistance(self, C=0, axis="y", verb=False):
         # Bending resistance, Nmm
         if C == 0:
             C = self.section_class()
 
         if C < 3:
-            WRd = self.Wpl
+            WRd = self.Wpl[0]
         elif C == 3:
-            WRd = self.Wel
+            WRd = self.Wel[0]
         else:
             #raise NotImplementedError(f"Cross-section class 4 not implemented in: {self}")
             warnings.warn(f"!Cross-section class 4 not implemented for CHS profiles! "
                   f"\nUsing elastic bending resistance, check results accordingly!", UserWarning, stacklevel=2)
 
-            WRd = self.Wel
+            WRd = self.Wel[0]
 
         MRd = self.code.bending_resistance(WRd, self.fy)
 
@@ -191,16 +194,13 @@ class CustomCHS(CHS):
                 
             return self.area()
         elif name == "I":
-            I = self.second_moment()
-            #if I[1] < 0:
-            #    print(self.h, self.b, self.tt, self.tb, self.tw)
-            return self.second_moment()
+            return np.array([self.second_moment()]*2)
         elif name == "Wel":
-            return self.section_modulus()
+            return np.array([self.elastic_modulus()]*2)
         elif name == "Wpl":
-            return self.plastic_section_modulus()
+            return np.array([self.plastic_modulus()]*2)
         elif name == "Ashear":
-            return self.shear_area()
+            return [self.shear_area()]*2
         elif name == "Au":
             return self.paint_area()
         elif name == "It":
-- 
2.43.0


From 5b7ae5ab93a37f44ec6de39ced823ef9628edb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 059/214] fix: circular hollow sections can be checked for
 axial force and bending

---
 metku/sections/steel/CHS.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index e1190a3..87ad7f3 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -92,7 +92,7 @@ class CHS(SteelSection):
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
         
-    def web_class_comp_bend(self, verb=False):
+    def web_class_comp_bend(self, Ned, verb=False):
         r = self.D/self.T
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
@@ -123,20 +123,21 @@ class CHS(SteelSection):
 
         return MRd, C
     
-    def MomentAxialForceInteract(self):
-        """ This interaction formula is only for plastic design """
-        MRd = self.BendingResistance(1);
-        NRd = self.AxialForceResistance;
-            
-        """ EN 1993-1-1: 6.2.9.1(5)
-            In class 1 or 2 use plastic design
-        """
-        n = abs(self.Ned)/NRd;
+    def moment_axial_force_interact(self, UN, MRd):
+        """ Interaction rule for section resistance for combined
+            axial force and bending
+
+            EN 1993-1-1: 6.2.9.1(5)
+            This interaction formula is only for plastic design
+            (class 1 or 2)
 
-        if n > 1.0:
-            MNRd = 0
+            input: UN .. NEd/NRd
+                  MRd .. moment resistance
+        """
+        if UN > 1.0:
+            MNRd = 0.0
         else:
-            MNRd = MRd*min(1-n**1.7,1)
+            MNRd = MRd*min(1-UN**1.7,1)
 
         return MNRd
     
-- 
2.43.0


From 481f484d67922ea3856c1da294c8bfcdb2d0fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 060/214] fix: extreme forces of a member are compared by their
 signed values

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index f2e2ae0..b70cd27 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -532,7 +532,7 @@ class FrameMember:
                     if result_dict[key]["load_id"] is None:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
-                    elif abs(val) > abs(result_dict[key][force]):
+                    elif func(val, result_dict[key][force]) != result_dict[key][force]:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
 
-- 
2.43.0


From 842f710c2da25de1dd26c5ab01e47e5ecc71d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 061/214] fix: resistance check of a member covers all designed
 load cases

---
 metku/raami/frame_member.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b70cd27..c6f9eba 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -549,12 +549,9 @@ class FrameMember:
 
         rmax = self.member.design()
         
-        if rmax > self.allowable_utilization:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        self.resistance_check = all(r <= self.allowable_utilization
+                                    for r in self.utilization.values())
     
     def print_utilization(self,file=None,details=False):
         """ Prints utilization ratios for different load cases """
@@ -1223,12 +1220,9 @@ class SteelFrameMember(FrameMember):
 
         rmax = self.member.design(sway=self.sway)
         
-        if rmax > self.allowable_utilization:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        self.resistance_check = all(r <= self.allowable_utilization
+                                    for r in self.utilization.values())
     
     def optimum_design(self, prof_type='CURRENT',verb=False,material="S355",
                        sec_class = 3, max_utility=1.0,
-- 
2.43.0


From 0679893d9596f04e7e2a7352f0c2ebfbffbeb6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 062/214] fix: beam-column check of members susceptible to
 lateral-torsional buckling

---
 metku/structures/steel/steel_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 0b5d561..2fdb75a 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -704,7 +704,7 @@ class SteelMember:
 
         if self.LTB:
             # Member is susceptible to lateral-torsional buckling
-            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.CmLT,
+            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.__CmLT,
                                  section_class=cross_section_class)
         else:
             MzEd = self.MEdZ
-- 
2.43.0


From 4f4889d1e79cf95d75dfdb295eebd84d338b384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 063/214] fix: stability utilizations are those of the latest
 design

---
 metku/structures/steel/steel_member.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 2fdb75a..49766cf 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -663,6 +663,8 @@ class SteelMember:
         MbRd = self.LT_buckling_strength(self.mcrit())
         r = abs(MEd) / MbRd
 
+        self.stability['LTB'] = r
+
         return r
 
     def check_beamcolumn(self, sway=False, load="uniform", section_class=None, verb=False):
@@ -675,6 +677,8 @@ class SteelMember:
         if abs(MyEd) < 1e-6:
             # If there is no bending moment, there is no need to
             # continue
+            self.stability['bc_y'] = 0.0
+            self.stability['bc_z'] = 0.0
             return [0, 0]
 
         # find the largest compression force in the member
@@ -783,6 +787,9 @@ class SteelMember:
         rmax = np.max(rsec)
 
         """ Check stability """
+        for key in self.stability:
+            self.stability[key] = 0.0
+
         if self.LTB:
             rLTB = self.check_LT_buckling()
             rmax = max(rmax, rLTB)
-- 
2.43.0


From 22370547d4684915f06a28f027700927d86668b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:56 +0000
Subject: [PATCH 064/214] fix: resistance check of multi-span members and
 groups covers all designed load cases

---
 metku/raami/frame_member.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index c6f9eba..94dbce9 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1345,12 +1345,9 @@ class MultiSpanSteelMember(MultiSpanMember):
             mem.design(load_id)
             rmax = max(rmax,mem.utilization[load_id])
                         
-        if rmax > 1.0:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        self.resistance_check = all(r <= self.allowable_utilization
+                                    for r in self.utilization.values())
     
     def optimum_design(self,prof_type="CURRENT",verb=False,material="S355",
                        sec_class=3,max_utility=1.0):
@@ -1483,12 +1480,9 @@ class MemberGroup:
             mem.design(load_id)
             rmax = max(rmax,mem.utilization[load_id])
                         
-        if rmax > 1.0:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        self.resistance_check = all(r <= 1.0
+                                    for r in self.utilization.values())
     
     def optimum_design(self,prof_type="CURRENT",verb=False,material="S355",
                        sec_class=3,max_utility=1.0,
-- 
2.43.0


From 192b7c5dfae06ffc740fb1e162b22a064d9aeb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 065/214] fix: equivalent moment factor when the moment at
 mid-span is zero

---
 metku/eurocodes/en1993/en1993_1_1.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 9a19777..7592349 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -360,16 +360,10 @@ def equivalent_moment_factor(Mend, Mspan=None, load="uniform"):
             else:
                 Mh = Mend[1]
 
-            if abs(Mh) < 1e-6:
-                # Both end moments are zero in this case
-                alpha = 0
-            else:
-                alpha = Mspan / Mh
-
-            if abs(alpha) > 1.0 or alpha == 0:
+            if abs(Mspan) > abs(Mh):
                 # Moment in the span is larger than the maximum end moment
-                if abs(alpha) > 1.0:
-                    alpha = 1 / alpha
+                # (both end moments can be zero)
+                alpha = Mh / Mspan
 
                 if alpha >= 0:
                     if load == "uniform":
@@ -389,6 +383,8 @@ def equivalent_moment_factor(Mend, Mspan=None, load="uniform"):
                             Cm = 0.90 + 0.1 * alpha * (1 + 2 * p)
             else:
                 # Moment in span is smaller than the maximum end moment
+                alpha = Mspan / Mh
+
                 if alpha >= 0:
                     Cm = max(0.2 + 0.8 * alpha, 0.4)
                 else:
-- 
2.43.0


From 263a31a32038068f9d33a49b05ca8ba7ddbde2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 066/214] fix: I-sections can be created with the name of their
 material

---
 metku/sections/steel/ISection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 049a40c..9f1ada1 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -47,14 +47,14 @@ class ISection(SteelSection):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
         if H / B > 1.2:
             if tf <= 40:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "a"
                     buck_z = "b"
                 else:
                     buck_y = "a0"
                     buck_z = "a0"
             else:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
                 else:
@@ -62,14 +62,14 @@ class ISection(SteelSection):
                     buck_z = "a"
         else:
             if tf <= 100:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
                 else:
                     buck_y = "a"
                     buck_z = "a"
             else:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "d"
                     buck_z = "d"
                 else:
-- 
2.43.0


From 44c319785d7838ee74a3199a4b858a57b5546b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 067/214] fix: square and circular hollow sections can be made
 by their catalogue names

---
 metku/sections/steel/catalogue.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/metku/sections/steel/catalogue.py b/metku/sections/steel/catalogue.py
index 51e988f..9b9fd4e 100644
--- a/metku/sections/steel/catalogue.py
+++ b/metku/sections/steel/catalogue.py
@@ -1325,6 +1325,22 @@ def make_rhs(key,material="S355"):
     
     return RHS(p[0],p[1],p[2],fy=material)    
 
+def make_shs(key,material="S355"):
+    """ Makes an SHS section out of the 'key' used """
+    from metku.sections.steel.RHS import SHS
+    
+    dims = shs_profiles['SHS ' + key]
+    
+    return SHS(dims['h'],dims['t'],fy=material)
+
+def make_chs(key,material="S355"):
+    """ Makes a CHS section out of the 'key' used """
+    from metku.sections.steel.CHS import CHS
+    
+    dims = chs_profiles['CHS ' + key]
+    
+    return CHS(dims['d'],dims['t'],fy=material)
+
 def make_section(key,material="S355"):
     """ Makes a steel section out of key """
     import re
@@ -1337,6 +1353,10 @@ def make_section(key,material="S355"):
         p = make_ipe(prof_name[1],material)
     elif prof_name[0] == "RHS":
         p = make_rhs(prof_name[1],material)
+    elif prof_name[0] == "SHS":
+        p = make_shs(prof_name[1],material)
+    elif prof_name[0] == "CHS":
+        p = make_chs(prof_name[1],material)
     elif prof_name[0] == "HE":
         if prof_name[2] == "A":
             p = make_hea(prof_name[1],material)
-- 
2.43.0


From 22a912fb9b91a3a4bdedfe5667a223e0831bbc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 068/214] fix: circular hollow sections have height and width
 for sizing

---
 metku/sections/steel/CHS.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index 87ad7f3..848f1e4 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -47,6 +47,18 @@ class CHS(SteelSection):
 
         self.imp_factor = [en1993_1_1.buckling_curve["c"],en1993_1_1.buckling_curve["c"]]
 
+    @property
+    def h(self):
+        return self.D
+
+    @property
+    def b(self):
+        return self.D
+
+    @property
+    def t(self):
+        return self.T
+
     def __repr__(self):
         return f"{type(self).__name__} {self.D:.0f}X{self.T:.1f}"
 
-- 
2.43.0


From e96a451028768c66776c4260e3f963780ca2895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 069/214] fix: square hollow sections are sized among square
 hollow sections

---
 metku/raami/frame_member.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 94dbce9..1c436d6 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -48,10 +48,11 @@ def profile_list(cross_section,prof_type="CURRENT",Tmin=3.0,sec_class=3):
             prof_type = "HEA"
         elif isinstance(cross_section,HEB):
             prof_type = "HEB"
-        elif isinstance(cross_section,RHS):
-            prof_type = "RHS"
         elif isinstance(cross_section,SHS):
+            # SHS is a subclass of RHS
             prof_type = "SHS"
+        elif isinstance(cross_section,RHS):
+            prof_type = "RHS"
         elif isinstance(cross_section,CHS):
             prof_type = "CHS"
         else:
-- 
2.43.0


From 9fa7da0b747c727c6380b3a77804401a96704066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 070/214] fix: slenderness limit is used in sizing of groups

---
 metku/raami/frame_member.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 1c436d6..1a75e0b 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1520,17 +1520,17 @@ class MemberGroup:
             if sec.section_class() > sec_class:
                 continue
             
+            members = []
             for member in self.members:
                 # For multispan members, the member of a group contains
                 # several members.
                 if isinstance(member,MultiSpanMember):
-                    for mem in member.members:
-                        if any(mem.member.slenderness() > max_slenderness):
-                            continue
+                    members += member.members
                 else:
-                    if any(member.member.slenderness() > max_slenderness):
-                        continue
+                    members.append(member)
             
+            if any(any(mem.member.slenderness() > max_slenderness) for mem in members):
+                continue
             
             for load_id in self.frame.load_ids:   
                 self.design(load_id)
-- 
2.43.0


From 4a8a3cbbdc0e088d598ccd476064485d30a177f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 071/214] fix: sizing continues when the profile of a group has
 changed

---
 metku/raami/raami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index f81882d..d968716 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -427,7 +427,7 @@ class Raami:
                 
             # Go through groups first
             for group in self.member_groups.values():                
-                group.optimum_design(prof_type,verb)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From 31df0fe6d612b82b794f267b307ba198995d6836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 072/214] fix: utilization after sizing belongs to the
 remaining profile when none is adequate

---
 metku/raami/frame_member.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 1a75e0b..698b25d 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1271,6 +1271,13 @@ class SteelFrameMember(FrameMember):
                         break
                 else:
                     break
+        else:
+            # No profile is adequate: the last one remains
+            for load_id in self.frame.load_ids:
+                self.design(load_id)
+                
+                if not self.symmetry_pair is None:
+                    self.symmetry_pair.design(load_id)
         
         """ If the profile changed during iteration, return 'True'. """
         if not self.is_section(initial_profile):
@@ -1381,6 +1388,10 @@ class MultiSpanSteelMember(MultiSpanMember):
                             
             if all(r<=self.allowable_utilization for r in self.utilization.values()):# <= 1.0:
                 break
+        else:
+            # No profile is adequate: the last one remains
+            for load_id in self.frame.load_ids:
+                self.design(load_id)
             
         
         """ If the profile changed during iteration, return 'True'. """    
@@ -1537,6 +1548,10 @@ class MemberGroup:
                             
             if all(r<=max_utility for r in self.utilization.values()):# <= 1.0:
                 break
+        else:
+            # No profile is adequate: the last one remains
+            for load_id in self.frame.load_ids:
+                self.design(load_id)
             
         
         """ If the profile changed during iteration, return 'True'. """    
-- 
2.43.0


From 8dd848e69c2739c2132a02ca4fafa8e8cdced75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 073/214] fix: sizing of a group reports a change when any of
 its members changed

---
 metku/raami/frame_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 698b25d..ec33a1b 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1513,6 +1513,7 @@ class MemberGroup:
         #print(profiles)
 
         initial_profile = self.cross_section
+        initial_sections = [mem.cross_section for mem in self.members]
 
         for profile in profiles:
             # profile is a string containing the name of the profile
@@ -1555,7 +1556,7 @@ class MemberGroup:
             
         
         """ If the profile changed during iteration, return 'True'. """    
-        if not self.is_section(initial_profile):
+        if any(not mem.is_section(sec) for mem, sec in zip(self.members,initial_sections)):
             if verb:
                 print(f'Initial profile: {initial_profile}')
                 print(f'New profile: {self.cross_section}')
-- 
2.43.0


From 22bc22ebf0ec74f7ceb945a3e27d9d7d87c8cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 074/214] fix: utilization limit is used in sizing of
 multi-span members

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index ec33a1b..4ce8409 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1386,7 +1386,7 @@ class MultiSpanSteelMember(MultiSpanMember):
             for load_id in self.frame.load_ids:   
                 self.design(load_id)
                             
-            if all(r<=self.allowable_utilization for r in self.utilization.values()):# <= 1.0:
+            if all(r<=min(max_utility,self.allowable_utilization) for r in self.utilization.values()):# <= 1.0:
                 break
         else:
             # No profile is adequate: the last one remains
-- 
2.43.0


From 50a9b250b0450ca03ee12e3ba0076197d2401af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 075/214] fix: sizing of a member reports a change of the
 profile of its symmetry pair

---
 metku/raami/frame_member.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 4ce8409..a87c502 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1238,6 +1238,8 @@ class SteelFrameMember(FrameMember):
         profiles = profile_list(self.cross_section,prof_type)
         
         initial_profile = self.cross_section
+        if not self.symmetry_pair is None:
+            initial_pair_profile = self.symmetry_pair.cross_section
 
         for profile in profiles:
             # profile is a string containing the name of the profile
@@ -1280,7 +1282,9 @@ class SteelFrameMember(FrameMember):
                     self.symmetry_pair.design(load_id)
         
         """ If the profile changed during iteration, return 'True'. """
-        if not self.is_section(initial_profile):
+        if not self.is_section(initial_profile) or \
+            (not self.symmetry_pair is None and
+             not self.symmetry_pair.is_section(initial_pair_profile)):
             if verb:
                 print(f'Initial profile: {initial_profile}')
                 print(f'New profile: {self.cross_section}')
-- 
2.43.0


From f0a8e8ddf1ec66bcb4da050d0759fcc24cc40fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 076/214] fix: shear area of rectangular hollow sections in the
 direction of the width

---
 metku/sections/steel/RHS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 0675623..15d2352 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -138,7 +138,7 @@ class RHS(SteelSection):
             I[0] = RHS_second_moment(self.H, self.B, self.T, self.R)
             I[1] = RHS_second_moment(self.B, self.H, self.T, self.R)
             self.I = np.asarray(I)
-            self.Ashear = [RHS_shear_area(self.A, self.B, self.B),RHS_shear_area(self.A, self.H, self.B)]
+            self.Ashear = [RHS_shear_area(self.A, self.B, self.H),RHS_shear_area(self.A, self.H, self.B)]
             self.Au = RHS_paint_area(self.H, self.B, self.R)
             Wel = [0.0, 0.0]
             Wel[0] = RHS_elastic_modulus(self.H, I[0])
-- 
2.43.0


From 2f06f01cda1fd4c6ca9aff24540bde89500b365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 077/214] fix: buckling curves of I-sections follow changes of
 material and dimensions

---
 metku/sections/steel/ISection.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 9f1ada1..8aa74a5 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -44,9 +44,18 @@ class ISection(SteelSection):
         self.It = It
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
 
+        self.update_buckling_curves()
+
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        # The buckling curves depend on dimensions and material
+        if key in ('h', 'b', 'tf', 'material') and '_SteelSection__material' in self.__dict__:
+            self.update_buckling_curves()
+
+    def update_buckling_curves(self):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
-        if H / B > 1.2:
-            if tf <= 40:
+        if self.h / self.b > 1.2:
+            if self.tf <= 40:
                 if self.fy <= 420:
                     buck_y = "a"
                     buck_z = "b"
@@ -61,7 +70,7 @@ class ISection(SteelSection):
                     buck_y = "a"
                     buck_z = "a"
         else:
-            if tf <= 100:
+            if self.tf <= 100:
                 if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
@@ -80,14 +89,13 @@ class ISection(SteelSection):
                            en1993_1_1.buckling_curve[buck_z]]
         
         
-        if H/B <= 2.0:
+        if self.h/self.b <= 2.0:
             self.imp_factor_LT_gen = en1993_1_1.buckling_curve["a"]
             self.imp_factor_LT = en1993_1_1.buckling_curve["b"]
         else:
             self.imp_factor_LT_gen = en1993_1_1.buckling_curve["b"]
             self.imp_factor_LT = en1993_1_1.buckling_curve["c"]
 
-
     def __repr__(self):
         return f"{type(self).__name__} {self.h:.0f}"
     
-- 
2.43.0


From 68094b1ca9afacb1e85ffa5243ac7b3073296080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 078/214] fix: properties of custom I-sections after a change
 of dimensions

---
 metku/sections/steel/ISection.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 8aa74a5..a16229f 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -701,17 +701,31 @@ class HEM(ISection):
 
 class CustomISection(ISection):
     def __init__(self, H, B, tf, tw, r, fy=355):
-        self.H = H
-        self.B = B
-        self.tf = tf
-        self.tw = tw
-        self.r = r
-
         ISection.__init__(self, H, B, tf, tw, r, fy=fy)
 
+    @property
+    def H(self):
+        return self.h
+
+    @H.setter
+    def H(self, val):
+        self.h = val
+
+    @property
+    def B(self):
+        return self.b
+
+    @B.setter
+    def B(self, val):
+        self.b = val
+
     def cross_section_properties(self):
         args = cross_section_properties(self.B, self.H, self.tf, self.tw, self.r)
-        self.A, self.Au, self.Ashear, self.I, self.It, self.Iw, self.Wpl, self.Wel = args
+        self.A, self.Au, Ashear, I, self.It, self.Iw, Wpl, Wel = args
+        self.Ashear = [0.0, Ashear]
+        self.I = np.asarray(I)
+        self.Wpl = np.asarray(Wpl)
+        self.Wel = np.asarray(Wel)
 
 
 def cross_section_properties(b, h, tf, tw, r):
-- 
2.43.0


From 838565c589e2a94e95dbdef8e7d05dbe2c0ac6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 079/214] fix: buckling curves of welded I-sections follow
 changes of dimensions

---
 metku/sections/steel/wi.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 951f2d5..9f336bc 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -79,15 +79,18 @@ class WISection(SteelSection):
 
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
 
+        self.update_buckling_curves()
+
+    def update_buckling_curves(self):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
-        if max(tf) <= 40:
+        if max(self.tf) <= 40:
             self.imp_factor = [en1993_1_1.buckling_curve["b"],
                                en1993_1_1.buckling_curve["c"]]
         else:
             self.imp_factor = [en1993_1_1.buckling_curve["c"],
                                en1993_1_1.buckling_curve["d"]]
 
-        if h / min(b) <= 2.0:
+        if self.h / min(self.b) <= 2.0:
             self.imp_factor_LT_gen = en1993_1_1.buckling_curve["c"]
             self.imp_factor_LT = en1993_1_1.buckling_curve["c"]
         else:
@@ -162,6 +165,9 @@ class WISection(SteelSection):
         #    self.b[1] = value
         else:
             super().__setattr__(key, value)
+            # The buckling curves depend on the dimensions
+            if key in ('h', 'bt', 'bb', 'tt', 'tb') and '_SteelSection__material' in self.__dict__:
+                self.update_buckling_curves()
 
     """
     @property
-- 
2.43.0


From b86151435b2e00744747d3f6f861d749d6aa1830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 080/214] fix: widths and thicknesses of both flanges of a
 welded I-section can be set as a list

---
 metku/sections/steel/wi.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 9f336bc..0065448 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -152,11 +152,9 @@ class WISection(SteelSection):
 
     def __setattr__(self, key, value):
         if key == "b":
-            self.bt = value
-            self.bb = value
+            self.bt, self.bb = (value, value) if np.isscalar(value) else value
         elif key == "tf":
-            self.tt = value
-            self.tb = value
+            self.tt, self.tb = (value, value) if np.isscalar(value) else value
         elif key == "hw":
             self.h = value + self.tt + self.tb
         # elif key == "bt":
-- 
2.43.0


From 034ea1196dde32bd7e7598c2b6f0c8e7f3481dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 081/214] fix: effective properties of welded I-sections do not
 depend on earlier queries

---
 metku/sections/steel/wi.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 0065448..b7794a8 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -377,11 +377,16 @@ class WISection(SteelSection):
         return MRd, C
 
     def effective_second_moment_area_y(self, psi_init: float = -1) -> float:
+        # Start from the gross section
+        self.eff_top = {'rho': 1.0, 'bneg': 0.0}
+        self.eff_bottom = {'rho': 1.0, 'bneg': 0.0}
         if psi_init < 0:
             self.effective_flange('top')
         else:
             self.effective_flange('bottom')
         psi = psi_init
+        b_t = self.bt - 2 * self.eff_top['bneg']
+        b_b = self.bb - 2 * self.eff_bottom['bneg']
         # For -loop range(5) is a conservative guess for neutral axis convergence
         for i in range(5):
             self.effective_web(psi)
@@ -395,8 +400,8 @@ class WISection(SteelSection):
             h_e2 = self.cw + weld_h - self.eff_web['bneg'] - e1
             h_all = [h_t, h_b, h_e1, h_e2]
             # Areas
-            A_t = self.bt * self.tt
-            A_b = self.bb * self.tb
+            A_t = b_t * self.tt
+            A_b = b_b * self.tb
             A_e1 = h_e1 * self.tw
             A_e2 = h_e2 * self.tw
             A_all = [A_t, A_b, A_e1, A_e2]
@@ -407,8 +412,8 @@ class WISection(SteelSection):
             z_e2 = self.tb + h_e2 / 2
             z_all = [z_t, z_b, z_e1, z_e2]
             # Second moment of areas
-            I_t = self.bt * h_t ** 3 / 12
-            I_b = self.bb * h_b ** 3 / 12
+            I_t = b_t * h_t ** 3 / 12
+            I_b = b_b * h_b ** 3 / 12
             I_e1 = self.tw * h_e1 ** 3 / 12
             I_e2 = self.tw * h_e2 ** 3 / 12
             I_all = [I_t, I_b, I_e1, I_e2]
@@ -815,9 +820,7 @@ class WISection(SteelSection):
         else:
             self.eff_web['bc'] = cw
 
-        ec = self.h - self.effective_neutral_axis()
-        self.eff_web['bneg'] = ec - self.tb - np.sqrt(2) * self.weld_throat - beff
-        # self.eff_web['bneg'] = (1 - rho) * cw / 2
+        self.eff_web['bneg'] = self.eff_web['bc'] - beff
 
         if verb:
             print("Effective Web:")
-- 
2.43.0


From 949361ac59b24b1302272bf0572c1ecbd79fe7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 082/214] fix: cross-section classification of steels with
 yield strength below 235 MPa

---
 metku/eurocodes/en1993/en1993_1_1.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 7592349..167a5e8 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -70,8 +70,9 @@ def internal_part_in_compression(r, e):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # A large value of e means that e is actually yield strength
+    # (epsilon exceeds 1 for yield strengths below 235 MPa)
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
@@ -97,8 +98,9 @@ def internal_part_comp_bend(r, e, a, p):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # A large value of e means that e is actually yield strength
+    # (epsilon exceeds 1 for yield strengths below 235 MPa)
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
@@ -137,8 +139,9 @@ def outstand_part_in_compression(r, e):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # A large value of e means that e is actually yield strength
+    # (epsilon exceeds 1 for yield strengths below 235 MPa)
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
-- 
2.43.0


From 8ecb005af35814145e5d42230390cab1209176b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 083/214] fix: interaction factors of class 3 and 4 sections
 (EN 1993-1-1, Table B.1)

---
 metku/eurocodes/en1993/en1993_1_1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 167a5e8..9caacde 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -266,7 +266,7 @@ def kyy(UN, slend, Cmy=1.0, section_class=2):
     if section_class < 3:
         ky = Cmy * (1 + min(slend - 0.2, 0.8) * UN / gammaM1)
     else:
-        ky = Cmy * (1 + min(slend, 0.6) * UN / gammaM1)
+        ky = Cmy * (1 + 0.6 * min(slend, 1.0) * UN / gammaM1)
 
     return ky
 
@@ -300,7 +300,7 @@ def kzz(UN, slend, Cmz, section_class=2, profile="hollow"):
         else:
             kz = Cmz * (1 + min(2 * slend - 0.6, 1.4) * UN / gammaM1)
     else:
-        kz = Cmz * (1 + min(slend, 0.6) * UN / gammaM1)
+        kz = Cmz * (1 + 0.6 * min(slend, 1.0) * UN / gammaM1)
 
     return kz
 
-- 
2.43.0


From 39a03cbbbcc6f25f4f86bbc1d18fc044f89a44f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 084/214] fix: class of web of I-sections in compression and
 negative bending moment

---
 metku/sections/steel/ISection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index a16229f..acf1347 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -314,8 +314,8 @@ class ISection(SteelSection):
                 print("sM = {0:4.3f} MPa".format(sM))
             
             if sN > cw/self.h*abs(sM): # and sN > -cw/self.h*sM:
-                """ Only positive stresses in the web """
-                p = 1
+                """ Only positive (tensile) stresses in the web """
+                return 1
             else:    
                 """ Both postiive and negative stresses in the web:
                     calculate stress ratio.
@@ -324,7 +324,7 @@ class ISection(SteelSection):
                     the ratio is calculated for the stresses in the
                     straight part of the web.
                 """
-                p = (sN+sM)/(sN-sM)
+                p = (sN+abs(sM))/(sN-abs(sM))
                 
             if verb:                
                 print("NEd = {0:4.3f} kN".format(self.Ned*1e-3))
-- 
2.43.0


From b4081db877a59d2e5875d075da4acc43d833bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 085/214] fix: class of webs of rectangular hollow sections in
 axial force and bending

---
 metku/sections/steel/RHS.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 15d2352..b20bb4d 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -228,8 +228,37 @@ class RHS(SteelSection):
         return cWeb    
 
     def web_class_comp_bend(self, Ned, verb=False):
+        """ Determine class of webs in combined bending and axial force
 
-        return 2
+            Ned is taken as given and fixed, and the bending moment is increased
+            until the webs have been plastified. The stress ratio is calculated
+            with respect to the extreme fibres of the section.
+        """
+        cw = self.H - 2 * self.R
+        rw = cw / self.T
+
+        NRweb = 2 * cw * self.T * self.fy
+        a = min(max(0.5 * (1 - Ned / NRweb), 0.0), 1.0)
+
+        sN = self.sigmaN()
+        sM = abs(self.sigmaM())
+
+        if sN > cw / self.H * sM:
+            # Only tensile stresses in the webs
+            return 1
+
+        p = (sN + sM) / (sN - sM)
+        cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, a, p)
+
+        if verb:
+            print("Web classification (internal part in compression and bending):")
+            print(f"cw = {cw:4.2f}, tw = {self.T:4.2f}")
+            print("hw/tw = {0:4.2f}".format(rw))
+            print("alpha = {0:4.3f}".format(a))
+            print("psi = {0:4.3f}".format(p))
+            print("Web class = {0}".format(cWeb))
+
+        return cWeb
 
     def moment_axial_force_interact(self, UN, MRd):
         """ Interaction rule for section resistance for combined
-- 
2.43.0


From fa7f6c90e8963baad32aee92a2b7a9ebaf743f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 086/214] fix: class of sections in axial tension and bending
 with parts in compression

---
 metku/sections/steel/steel_section.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index 91f513c..4595b06 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -505,7 +505,13 @@ class SteelSection(metaclass=ABCMeta):
 
         # Axial tension and bending
         elif self.Ned > 0.0 and abs(Med) > 1e-4:
-            C = 1
+            if abs(Med) / self.Wel[0] > self.Ned / self.A:
+                # A part of the section is in compression
+                Cflange = self.flange_class(verb)
+                Cweb = self.web_class_comp_bend(self.Ned, verb)
+                C = max(Cweb, Cflange)
+            else:
+                C = 1
 
         if verb:
             print("Section class = {0}".format(C))
-- 
2.43.0


From 20e7bdf2a31e7c2cb5c9facf415e3a2ba22dc83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 087/214] fix: share of web in interaction of axial force and
 bending of welded I-sections

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index b7794a8..5b6beb7 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -588,7 +588,7 @@ class WISection(SteelSection):
                   MRd .. moment resistance           
             TODO tarkista tämä
         """
-        aw = min((self.A - (self.bt * self.tt - self.bb * self.tb))
+        aw = min((self.A - (self.bt * self.tt + self.bb * self.tb))
                  / self.A, 0.5)
 
         if UN > 1.0:
-- 
2.43.0


From b35449174932d81acb7b1cb55b4a9e014d3a6cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 088/214] fix: class of compressed flanges of welded I-sections

---
 metku/sections/steel/wi.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 5b6beb7..a865a03 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -499,18 +499,34 @@ class WISection(SteelSection):
         return zj
 
     def flange_class(self, verb=False):
-        """ Determine class of compressed flange """
-        # cf = 0.5*(self.b - self.tw) - self.r
-        rf = self.cf_top / self.tt
-        cFlange = en1993_1_1.outstand_part_in_compression(rf, self.eps)
-
-        self.flanges_class[0] = cFlange
+        """ Determine class of compressed flange(s).
+            If there are no forces, the top flange is classified.
+        """
+        zel = self.elastic_neutral_axis()
+        sN = self.Ned / self.A
+        sM = self.Med[0] / self.I[0]
+
+        # Positive bending moment: top flange is in compression
+        bottom = sN + sM * zel < 0
+        top = sN - sM * (self.h - zel) < 0 or not bottom
+        if self.Ned > 0 and not bottom and sN - sM * (self.h - zel) >= 0:
+            # Both flanges are in tension
+            return 1
+
+        cFlange = 1
+        for i, (compressed, cf, t) in enumerate([(top, self.cf_top, self.tt),
+                                                 (bottom, self.cf_bottom, self.tb)]):
+            if not compressed:
+                continue
+            rf = cf / t
+            self.flanges_class[i] = en1993_1_1.outstand_part_in_compression(rf, self.eps)
+            cFlange = max(cFlange, self.flanges_class[i])
 
-        if verb:
-            print("Flange classification (outstand element):")
-            print("cf = {0:4.2f}, tf = {1:4.2f}".format(self.cf_top, self.tt))
-            print("cf/tf = {0:4.2f}".format(rf))
-            print("Flange class = {0}".format(cFlange))
+            if verb:
+                print("Flange classification (outstand element):")
+                print("cf = {0:4.2f}, tf = {1:4.2f}".format(cf, t))
+                print("cf/tf = {0:4.2f}".format(rf))
+                print("Flange class = {0}".format(self.flanges_class[i]))
 
         return cFlange
 
-- 
2.43.0


From dd2f5ef4c0bee6a63e990cbcc96b9900de11083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 089/214] fix: class of web of welded I-sections in bending and
 axial force

---
 metku/sections/steel/wi.py | 65 ++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index a865a03..b2aeb28 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -547,18 +547,42 @@ class WISection(SteelSection):
 
     def web_class_bend(self, verb=False):
         """ Determine class of web in bending """
-        zel = self.elastic_neutral_axis()
-        dpl = self.plastic_neutral_axis()
-        rw = self.cw / self.tw
-        psi = (-zel + self.tb) / (self.h - zel - self.tt)
+        return self.web_class_comp_bend(0.0, verb)
 
-        if dpl <= self.tb + math.sqrt(2) * self.weld_throat:
-            alpha = 1
-        elif dpl >= self.h - self.tt - math.sqrt(2) * self.weld_throat:
-            alpha = 0  # TODO tarkista tämä
+    def web_class_comp_bend(self, Ned, verb=False):
+        """ Determine class of web in combined bending and axial force
+
+            Ned is taken as given and fixed, and the bending moment is increased
+            until the entire section has been plastified. If there is no
+            bending moment, the top flange is assumed to be in compression.
+        """
+        rw = self.cw / self.tw
+        weld = math.sqrt(2) * self.weld_throat
+        zel = self.elastic_neutral_axis()
+        # Distances of the edges of the web from the centroid and
+        # area of the compressed flange
+        if self.Med[0] >= 0:
+            ec, et = self.h - self.tt - zel, zel - self.tb
+            Af = self.At
+        else:
+            ec, et = zel - self.tb, self.h - self.tt - zel
+            Af = self.Ab
+
+        # Stresses at the edges of the web
+        sN = Ned / self.A
+        sM = abs(self.Med[0]) / self.I[0]
+        if sN == 0:
+            psi = -et / ec
         else:
-            alpha = (self.h - self.tt - math.sqrt(2) * self.weld_throat - dpl) \
-                    / (self.h - self.tt - self.tb - 2 * math.sqrt(2))
+            if sN - sM * ec >= 0:
+                # Web is in tension
+                self.web_class = 1
+                return 1
+            psi = (sN + sM * et) / (sN - sM * ec)
+
+        # Compressed part of the web when the section is plastified
+        Ac = 0.5 * (self.A - Ned / (self.fy / constants.gammaM0))
+        alpha = min(max(((Ac - Af) / self.tw - weld) / self.cw, 0), 1)
 
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, alpha, psi)
 
@@ -575,27 +599,6 @@ class WISection(SteelSection):
 
         return cWeb
 
-    def web_class_comp_bend(self, Ned, verb=False):
-        """ Determine class of web in combined bending and compression 
-            TODO tarkista tämä
-        """
-        # cw = self.h-2*self.tf-2*self.r
-        rw = self.hw / self.tw
-        Ac = 0.5 * (self.A + Ned / (self.fy / constants.gammaM0))
-        a = Ac / self.A
-        p = -1
-
-        cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, a, p)
-        self.web_class = cWeb
-        if verb:
-            print("Web classification (internal part in compression and "
-                  "bending):")
-            print("hw = {0:4.2f}, tw = {1:4.2f}".format(self.hw, self.tw))
-            print("hw/tw = {0:4.2f}".format(rw))
-            print("Web class = {0}".format(cWeb))
-
-        return cWeb
-
     def moment_axial_force_interact(self, UN, MRd):
         """ Interaction rule for section resistance for combined
             axial force and bending
-- 
2.43.0


From 61798512aa25fec2f25dda4503661a92a5ddd80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 090/214] fix: buckling factor of internal compression elements
 mostly in tension

---
 metku/eurocodes/en1993/en1993_1_5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_5.py b/metku/eurocodes/en1993/en1993_1_5.py
index 58115e9..ac23bf0 100644
--- a/metku/eurocodes/en1993/en1993_1_5.py
+++ b/metku/eurocodes/en1993/en1993_1_5.py
@@ -83,8 +83,9 @@ def buckling_factor_internal(psi=1.0):
         ksigma = 7.81 - 6.29 * psi + 9.78 * psi ** 2
     elif psi == -1.0:
         ksigma = 23.9
-    elif psi > -3:
-        ksigma = 5.98 * (1 - psi) ** 2
+    else:
+        # Table 4.1 covers psi > -3
+        ksigma = 5.98 * (1 - max(psi, -3)) ** 2
 
     return ksigma
 
-- 
2.43.0


From ab0b51ad4ff543de430597842286e0a0e3078e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 091/214] fix: numerical gradient of a constraint takes fixed
 variables and analysis into account

---
 metku/optimization/constraints.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index 57df39f..806e918 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -222,8 +222,11 @@ class NonLinearConstraint(Constraint):
         """ Evaluate gradient at x """
         
         if self.grad is None:
-            # Evaluate gradient numerically
-            df = opt_funs.NumGrad(self.con,x)
+            # Evaluate gradient numerically with respect to the free variables.
+            # The constraint itself is called, so that fixed variables and
+            # structural analysis are taken into account.
+            df = opt_funs.NumGrad(self,x)
+            self.problem.substitute_variables(x)
         else:
             df = self.grad(x)
         
-- 
2.43.0


From b3c510dceccee0a05fe6a30e3b87d27cc628bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 092/214] fix: approximations of constraints are made with the
 fixed variables and without analysis

---
 metku/optimization/structopt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index ba01dd6..c27f225 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -471,9 +471,11 @@ class OptimizationProblem:
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 conlin_con.con = conlin_fun(x,gx,dgx)
+                # The approximation is an explicit function
+                conlin_con.fea_required = False
                 
                 Pconlin.add(conlin_con)
         
@@ -521,9 +523,11 @@ class OptimizationProblem:
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 mma_con.con = mma_fun(x,gx,dgx,L,U)
+                # The approximation is an explicit function
+                mma_con.fea_required = False
                 
                 Pmma.add(mma_con)
         
-- 
2.43.0


From 50d933ff0ece79aecc2b35390a77dde663ad35be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 093/214] fix: linear constraints stay in their problem when it
 is approximated

---
 metku/optimization/constraints.py | 23 +++++++++++++++++++++++
 metku/optimization/solvers/mma.py |  4 ++--
 metku/optimization/structopt.py   |  8 ++++----
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index 806e918..bdfc4f6 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -6,6 +6,7 @@ Created on Thu Oct  6 15:14:17 2022
 """
 
 import numpy as np
+from copy import copy
 from collections.abc import Iterable
 
 from metku.optimization.constants import X_TOL, POT_ACT_TOL
@@ -161,6 +162,28 @@ class LinearConstraint(Constraint):
         
 
 
+    def free_part(self):
+        """ The constraint in terms of the free variables of the problem:
+            the share of the fixed variables is moved to the right-hand side.
+        """
+        a = []
+        b = self.b.value if isinstance(self.b, Variable) else self.b
+        for ai, var in zip(self.a, self.problem.all_vars):
+            if var is self.b and not var.locked:
+                ai = ai - 1
+                b = b - var.value
+            if var.locked:
+                b = b - ai * (var.idx if isinstance(var, IndexVariable) else var.value)
+            else:
+                a.append(ai)
+
+        con = copy(self)
+        con.a = np.array(a)
+        con.b = b
+
+        return con
+
+
 class NonLinearConstraint(Constraint):
     """ Class for linear constraints """
 
diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 3bfff3e..743fe97 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -73,8 +73,8 @@ class MMAProblem(OptimizationProblem):
         self.cons.clear()
         for con in P.cons:
             if isinstance(con, cons.LinearConstraint):
-                # Linear constraints are simply added
-                self.add(con)
+                # Linear constraints are simply added, in terms of the free variables
+                self.add(con.free_part())
             else:
                 # For nonlinear constraints, MMA approximation is made                
                 mma_con = copy(con)
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index c27f225..4df112d 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -466,8 +466,8 @@ class OptimizationProblem:
         # Approximate constraints
         for con in self.cons:
             if isinstance(con,LinearConstraint):
-                # Linear constraints are simply added
-                Pconlin.add(con)
+                # Linear constraints are simply added, in terms of the free variables
+                Pconlin.add(con.free_part())
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
@@ -518,8 +518,8 @@ class OptimizationProblem:
         # Approximate constraints
         for con in self.cons:
             if isinstance(con,LinearConstraint):
-                # Linear constraints are simply added
-                Pmma.add(con)
+                # Linear constraints are simply added, in terms of the free variables
+                Pmma.add(con.free_part())
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-- 
2.43.0


From f6363f93cb1f7a9fe79ac40c496cf73e716bc22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 094/214] fix: the problem stays at the approximation point
 when it is approximated

---
 metku/optimization/solvers/mma.py | 3 +++
 metku/optimization/structopt.py   | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 743fe97..347c86e 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -85,6 +85,9 @@ class MMAProblem(OptimizationProblem):
 
                 self.add(mma_con)
 
+        # Differentiation has moved the variables
+        P.substitute_variables(x)
+
 
 class MMA(OptSolver):
 
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 4df112d..4b4663c 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -479,6 +479,9 @@ class OptimizationProblem:
                 
                 Pconlin.add(conlin_con)
         
+        # Differentiation has moved the variables
+        self.substitute_variables(x)
+
         return Pconlin
     
     def mma(self,x,U,L,mu=0.8):
@@ -531,6 +534,9 @@ class OptimizationProblem:
                 
                 Pmma.add(mma_con)
         
+        # Differentiation has moved the variables
+        self.substitute_variables(x)
+
         return Pmma
         
     def nnonlincons(self):
-- 
2.43.0


From 3f933db4b06be46f4cecd8ef968bffcc02bec8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 095/214] fix: variables of the MMA subproblem stay above
 negative lower asymptotes

---
 metku/optimization/solvers/mma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 347c86e..90a4235 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -54,7 +54,7 @@ class MMAProblem(OptimizationProblem):
         for i, var in enumerate(P.vars):
             # Create variables for the mma problem
             # Rules for variable bounds are from Svanberg (2007)
-            lb = max(var.lb, L[i] + 0.1 * (x[i] - abs(L[i])), x[i] - 0.5 * (var.ub - var.lb))
+            lb = max(var.lb, L[i] + 0.1 * (x[i] - L[i]), x[i] - 0.5 * (var.ub - var.lb))
             ub = min(var.ub, U[i] - 0.1 * (U[i] - x[i]), x[i] + 0.5 * (var.ub - var.lb))
             self.add(Variable(name=var.name,
                               lb=lb,
-- 
2.43.0


From 9d4584a438c5630871ad002ccf3dc04fef61aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 096/214] fix: Linearize evaluates the gradient numerically

---
 metku/optimization/opt_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 248afb2..ce5ce65 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -193,10 +193,8 @@ def Linearize(fun, x, grad=None):
 
     b = fun(x)
 
-    if grad == None:
-        h = 0.01 * x  # check if this is OK
-        # h = np.ones_like(x) * 1e-2
-        a = NumGrad(fun, x, h)
+    if grad is None:
+        a = NumGrad(fun, x)
     else:
         a = grad(x)
 
-- 
2.43.0


From 6c9f7f8314b740d5fbb8fb5705544d85dba8bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 097/214] fix: numbers of nonlinear constraints are those of
 the constraints

---
 metku/optimization/structopt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 4b4663c..a5c6933 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -675,12 +675,14 @@ class OptimizationProblem:
     def nlincons(self):
         """ Number of nonlinear inequality constraints """
 
-        return len(self.vars)
+        return len([con for con in self.cons if
+                    isinstance(con, NonLinearConstraint) and con.type != "="])
 
     def nlineqcons(self):
         """ Number of nonlinear equality constraints """
 
-        return len(self.vars)
+        return len([con for con in self.cons if
+                    isinstance(con, NonLinearConstraint) and con.type == "="])
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-- 
2.43.0


From a1b1cc08daeee02b6599dafa9200b7ec5f8827de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 098/214] Revert "fix: the problem stays at the approximation
 point": the repaired differentiation already restores it

---
 metku/optimization/solvers/mma.py | 3 ---
 metku/optimization/structopt.py   | 6 ------
 2 files changed, 9 deletions(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 90a4235..b8209a9 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -85,9 +85,6 @@ class MMAProblem(OptimizationProblem):
 
                 self.add(mma_con)
 
-        # Differentiation has moved the variables
-        P.substitute_variables(x)
-
 
 class MMA(OptSolver):
 
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index a5c6933..183d2c6 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -479,9 +479,6 @@ class OptimizationProblem:
                 
                 Pconlin.add(conlin_con)
         
-        # Differentiation has moved the variables
-        self.substitute_variables(x)
-
         return Pconlin
     
     def mma(self,x,U,L,mu=0.8):
@@ -534,9 +531,6 @@ class OptimizationProblem:
                 
                 Pmma.add(mma_con)
         
-        # Differentiation has moved the variables
-        self.substitute_variables(x)
-
         return Pmma
         
     def nnonlincons(self):
-- 
2.43.0


From 0b789e77ce5a07441f088b2cf86b2b84b493dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 099/214] fix: SLP takes the sense of the constraints into
 account

---
 metku/optimization/solvers/slp.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/solvers/slp.py b/metku/optimization/solvers/slp.py
index 4a316f2..132846e 100644
--- a/metku/optimization/solvers/slp.py
+++ b/metku/optimization/solvers/slp.py
@@ -89,11 +89,14 @@ class SLP(OptSolver):
         if self.include_beta:
             beta = solver.NumVar(0, self.beta, 'beta')
         # Constraints
-        for i in range(n):
-            if self.include_beta:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i] + beta)
-            else:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i])
+        # The feasibility variable relaxes the constraint in its sense
+        slack = beta if self.include_beta else 0
+        for i, con in enumerate(self.problem.cons):
+            lhs = solver.Sum([A[i, j] * x[j] for j in range(m)])
+            if con.type != '>':
+                solver.Add(lhs <= B[i] + slack)
+            if con.type == '>' or con.type == '=':
+                solver.Add(lhs >= B[i] - slack)
 
         # Objective
         if self.include_beta:
-- 
2.43.0


From 3fd097ed0d024d9c009c664e1159d7b6fbf4812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 100/214] fix: MISLP includes constraints of type '>'

---
 metku/optimization/solvers/mislp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index e537d70..8d15e3f 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -110,6 +110,9 @@ class MISLP(OptSolver):
             if act_cons[i].type == '<':                
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) <= B[i] + beta)
+            elif act_cons[i].type == '>':
+                CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
+                                               for j in range(m)]) >= B[i] - beta)
             elif act_cons[i].type == '=':
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) == B[i])
-- 
2.43.0


From f7b038d4b83a8f0f81635ac19188d763cf8631da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 101/214] fix: LP solves problems with fixed variables

---
 metku/optimization/solvers/lp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/lp.py b/metku/optimization/solvers/lp.py
index 4f0c8ba..f8bb61d 100644
--- a/metku/optimization/solvers/lp.py
+++ b/metku/optimization/solvers/lp.py
@@ -58,25 +58,29 @@ class LP(OptSolver):
             else:
                 x.append(lp.NumVar(var.lb,var.ub,var.name))
                 
+        # Objective function coefficients of the free variables
+        c = [ci for ci, var in zip(problem.obj.c,problem.all_vars) if not var.locked]
         #nvars = len(x)
                 
         if problem.obj.obj_type == "MIN":
             if self.algo == "gurobi":
                 obj_sense = grb.GRB.MINIMIZE
             else:
-                lp.Minimize(lp.Sum(C * X for C, X in zip(problem.obj.c,x)))
+                lp.Minimize(lp.Sum(C * X for C, X in zip(c,x)))
         else:
             if self.algo == "gurobi":
                 obj_sense = grb.GRB.MAXIMIZE
             else:
-                lp.Maximize(lp.Sum(C * X for C, X in zip(problem.obj.c,x)))
+                lp.Maximize(lp.Sum(C * X for C, X in zip(c,x)))
         
         if self.algo == "gurobi":
-            lp.setObjective(grb.LinExpr(problem.obj.c,x),sense=obj_sense)
+            lp.setObjective(grb.LinExpr(c,x),sense=obj_sense)
             
         # Generate constraints
         for con in problem.cons:
             if isinstance(con,sopt.LinearConstraint):
+                # Fixed variables are moved to the right-hand side
+                con = con.free_part()
                 if self.algo == "gurobi":
                     if con.type == '<':
                         con_sense = grb.GRB.LESS_EQUAL
-- 
2.43.0


From de98f8a9f3fd925e9525c984fb266c2c53e62c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 102/214] fix: MILP solves problems with fixed variables

---
 metku/optimization/solvers/milp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/milp.py b/metku/optimization/solvers/milp.py
index 3876e4d..784caf4 100644
--- a/metku/optimization/solvers/milp.py
+++ b/metku/optimization/solvers/milp.py
@@ -51,6 +51,8 @@ class MILP(OptSolver):
             else:
                 x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.CONTINUOUS,name=var.name))
                 
+        # Objective function coefficients of the free variables
+        c = [ci for ci, var in zip(problem.obj.c,problem.all_vars) if not var.locked]
         #nvars = len(x)
                 
         if problem.obj.obj_type == "MIN":
@@ -58,11 +60,13 @@ class MILP(OptSolver):
         else:
             obj_sense = grb.GRB.MAXIMIZE
         
-        lp.setObjective(grb.LinExpr(problem.obj.c,x),sense=obj_sense)
+        lp.setObjective(grb.LinExpr(c,x),sense=obj_sense)
         
         
         for con in problem.cons:
             if isinstance(con,sopt.LinearConstraint):
+                # Fixed variables are moved to the right-hand side
+                con = con.free_part()
                 if con.type == '<':
                     con_sense = grb.GRB.LESS_EQUAL
                             #lp.addLConstr(LinExpr(con.a, x), grb.GRB.LESS_EQUAL, con.b)
-- 
2.43.0


From d01cdc5e8f1ded80478cba0f9f35d3c7d272f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 103/214] fix: MILP keeps integer variables integer

---
 metku/optimization/solvers/milp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/solvers/milp.py b/metku/optimization/solvers/milp.py
index 784caf4..ad0b5b2 100644
--- a/metku/optimization/solvers/milp.py
+++ b/metku/optimization/solvers/milp.py
@@ -48,6 +48,8 @@ class MILP(OptSolver):
             """
             if isinstance(var,sopt.BinaryVariable):
                 x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.BINARY,name=var.name))
+            elif isinstance(var,sopt.IntegerVariable):
+                x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.INTEGER,name=var.name))
             else:
                 x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.CONTINUOUS,name=var.name))
                 
-- 
2.43.0


From 396aee393d8cd68986b0c6290814b579c99b7bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 104/214] fix: MILP reports problems without a solution as
 infeasible

---
 metku/optimization/solvers/milp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/milp.py b/metku/optimization/solvers/milp.py
index ad0b5b2..3da6c05 100644
--- a/metku/optimization/solvers/milp.py
+++ b/metku/optimization/solvers/milp.py
@@ -98,13 +98,14 @@ class MILP(OptSolver):
                 
         if lp.Status == grb.GRB.OPTIMAL:
             self.feasible = True
-        elif lp.Status == grb.GRB.INFEASIBLE:
+        else:
             self.feasible = False
                 
         X = []
-        for v in lp.getVars():
-            #print('%s %g' % (v.varName, v.x))                    
-            X.append(v.x)
+        if self.feasible:
+            for v in lp.getVars():
+                #print('%s %g' % (v.varName, v.x))                    
+                X.append(v.x)
         
         # bounds = [x*self.move_limits for x in self.X]
         #
-- 
2.43.0


From 33f342e89967ec3091d6f9859349fa6993a6398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 105/214] fix: trust region solver takes linear constraints
 with fixed variables

---
 metku/optimization/solvers/trust_region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/solvers/trust_region.py b/metku/optimization/solvers/trust_region.py
index 20543fa..5c4cba0 100644
--- a/metku/optimization/solvers/trust_region.py
+++ b/metku/optimization/solvers/trust_region.py
@@ -131,6 +131,8 @@ class TrustRegionConstr(OptSolver):
                     ))
             else:
             #elif isinstance(con,sopt.LinearConstraint):
+                # Fixed variables are moved to the right-hand side
+                con = con.free_part()
                 lb = -np.inf
                 ub = np.inf
                 if con.type == "<" or con.type == "<=":                
-- 
2.43.0


From 994385e65fd3ce018e8dac7f5e25a78cbfb7ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 106/214] fix: COBYLA keeps the variable bounds and returns the
 objective and the design

---
 metku/optimization/solvers/slsqp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/slsqp.py b/metku/optimization/solvers/slsqp.py
index a60828a..b30fc2d 100644
--- a/metku/optimization/solvers/slsqp.py
+++ b/metku/optimization/solvers/slsqp.py
@@ -205,10 +205,16 @@ class COBYLA(SLSQP):
         out = minimize(self.problem.obj,
                        x0,
                        method='COBYLA',
+                       bounds=self._create_bounds(),
                        constraints=constraints,
                        options=options)
         # print(out)
-        return out
+        self.feasible = bool(out.success)
+        self.result = out
+        self.best_x = out.x
+        self.best_f = out.fun
+        self.X = out.x
+        return self.best_f, self.best_x
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 57455435226dca146ba4bf4b85b8c9c6578dd0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 107/214] fix: reduction factors at elevated temperatures are
 looked up in the table of the material

---
 metku/eurocodes/en1993/en1993_1_2.py | 47 ++++++++++++----------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 5e958a8..6bd3364 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -109,37 +109,30 @@ def reduce_property(t,prop,steel='carbon'):
         of property 'prop'
     """
     rf = 1.0
-    # Check if 't' matches any of the special temperatures
-    if any(SPECIAL_TEMPS == t):
-        if steel == 'carbon':
-            rf = REDUCTION_FACTORS_CS[t][prop]
-        elif steel =='1.4301':
-            rf = REDUCTION_FACTORS_14301[t][prop]
-        elif steel == 'bolts':
-            rf = REDUCTION_FACTORS_BOLTS[t][prop]
-        else:
-            print("Unidentified steel grade!")
+    if steel == 'carbon':
+        table = REDUCTION_FACTORS_CS
+    elif steel == '1.4301':
+        table = REDUCTION_FACTORS_14301
+    elif steel == 'bolts':
+        table = REDUCTION_FACTORS_BOLTS
+    else:
+        print("Unidentified steel grade!")
+        return rf
+
+    # Each table has its own temperatures; linear interpolation between them
+    temps = np.array(sorted(table))
+    if any(temps == t):
+        rf = table[t][prop]
+    elif t > temps[-1]:
+        rf = table[temps[-1]][prop]
     else:
-        # t does not match any of the special temperatures;
-        # Do linear interpolation
-        
         """ Find the largest smaller and smallest larger
             temperatures and the corresponding reduction factors
         """
-        t_smaller = np.max(SPECIAL_TEMPS[SPECIAL_TEMPS < t])
-        t_larger = np.min(SPECIAL_TEMPS[SPECIAL_TEMPS > t])
-        
-        if steel == 'carbon':
-            p_smaller = REDUCTION_FACTORS_CS[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_CS[t_larger][prop]
-        elif steel == '1.4301':
-            p_smaller = REDUCTION_FACTORS_14301[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_14301[t_larger][prop]
-        elif steel == 'bolts':
-            p_smaller = REDUCTION_FACTORS_BOLTS[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_BOLTS[t_larger][prop]
-            
-        rf = linear_interpolation((t_smaller,p_smaller), (t_larger,p_larger), t)
+        t_smaller = np.max(temps[temps < t])
+        t_larger = np.min(temps[temps > t])
+        rf = linear_interpolation((t_smaller,table[t_smaller][prop]),
+                                  (t_larger,table[t_larger][prop]), t)
     
     return rf
 
-- 
2.43.0


From 7ba8eb5b4a325fb8a7de6154866300d80c45d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 108/214] fix: Table C.1 factor of 1.4301 at 1000-1200 C is
 0.40

---
 metku/eurocodes/en1993/en1993_1_2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 6bd3364..1f11580 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -43,9 +43,9 @@ REDUCTION_FACTORS_14301 = {20:{'ky':0.26,'k02':1.0,'ku':1.0,'kE':1.0,'kEct':0.11
                            700:{'ky':0.26,'k02':0.40,'ku':0.43,'kE':0.71,'kEct':0.02,'epsU': 0.30},
                            800:{'ky':0.35,'k02':0.27,'ku':0.27,'kE':0.63,'kEct':0.02,'epsU': 0.20},
                            900:{'ky':0.38,'k02':0.14,'ku':0.15,'kE':0.45,'kEct':0.02,'epsU': 0.20},
-                           1000:{'ky':0.040,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
-                           1100:{'ky':0.040,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
-                           1200:{'ky':0.040,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
+                           1000:{'ky':0.40,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
+                           1100:{'ky':0.40,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
+                           1200:{'ky':0.40,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
                            }
 
 # EN 1993-1-2, Table D.1
-- 
2.43.0


From b535f4629f06b491d45cc9c9ed3a8971215cf10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 109/214] fix: steel temperature can be determined for other
 gas temperatures than the nominal fires

---
 metku/eurocodes/en1993/en1993_1_2.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 1f11580..3302b9e 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -353,6 +353,9 @@ def steel_temp(ksh,AmV,tmax,gas_temp=standard_fire,dt=5,Tsteel_ini=20):
         aconv = 25
     elif gas_temp == hydrocarbon_fire:
         aconv = 50
+    else:
+        # Parametric and natural fires (EN 1991-1-2, 3.3.1.1(3))
+        aconv = 35
     
     while t < tmax:
         """ Assume that gas_temp is a function that takes
@@ -387,6 +390,9 @@ def stainless_steel_temp(ksh,AmV,tmax,gas_temp=standard_fire,dt=5,Tsteel_ini=20)
         aconv = 25
     elif gas_temp == hydrocarbon_fire:
         aconv = 50
+    else:
+        # Parametric and natural fires (EN 1991-1-2, 3.3.1.1(3))
+        aconv = 35
     
     while t < tmax:
         """ Assume that gas_temp is a function that takes
-- 
2.43.0


From 52b10e5a48271d68172830442a702979b845daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 110/214] fix: perimeter of I sections

---
 metku/sections/steel/ISection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index acf1347..fa8bdb6 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -738,7 +738,7 @@ def cross_section_properties(b, h, tf, tw, r):
     A = 2.0 * tf * b + (h - 2.0 * tf) * tw + (4.0 - math.pi) * r ** 2.0
 
     # Perimeter of cross-section
-    Au = 4 * (b - 2 * r) + 2 * (h - 2 * tw) + 2 * math.pi * r
+    Au = 2 * h + 4 * b - 2 * tw - (8 - 2 * math.pi) * r
 
     # Shear area [mm^2]    
     Ashear = A - 2.0 * b * tf + (tw + 2.0 * r) * tf
-- 
2.43.0


From 46da0536d1b2e13c04c4d0cd3e770d663a4101c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 111/214] fix: epsilon of stainless steel refers to E = 210 GPa
 (EN 1993-1-4, Table 5.2)

---
 metku/materials/steel_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/materials/steel_data.py b/metku/materials/steel_data.py
index 8cb7b31..bec8064 100644
--- a/metku/materials/steel_data.py
+++ b/metku/materials/steel_data.py
@@ -113,7 +113,7 @@ class StainlessSteel:
         return f"{self.name}"
     
     def eps(self):
-        return sqrt(235.0/self.fy*self.E/200000.0)
+        return sqrt(235.0/self.fy*self.E/210000.0)
 
 
 s = Steel()
-- 
2.43.0


From c339765de7b33edcc7d6e654d455438d22308439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 112/214] fix: ridge of a sloped truss is at the distance L1
 from the left end

---
 metku/raami/raami_plane_truss.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2399d9b..a0efde1 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -518,6 +518,10 @@ class SlopedTruss(PlaneTruss):
         # Joint at the ridge
         self.ridge_joint = None
     
+    def xmid(self):
+        """ coordinates of the ridge """
+        return np.array([self.origin[0]+self.L1,self.origin[1]+self.Hmid-self.Hleft])
+    
     def height_of_slope_left(self):
         """ Height of the truss above the origin """
         return self.L1*np.tan(np.radians(self.slope))
@@ -750,7 +754,7 @@ class SlopedTruss(PlaneTruss):
             
             # First half
             X0 = np.array([self.origin[0]+dx1,ycoord])
-            X1 = np.array([self.origin[0]+0.5*self.span,ycoord])  
+            X1 = np.array([self.origin[0]+self.L1,ycoord])  
             X2 = np.array([self.origin[0]+self.span-dx2,ycoord])
                         
             Xbot = [FrameNode(X0+s*(X1-X0)) for s in S]
@@ -1183,7 +1187,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x - self.xmid()[0]) < 1e-6:
                     self.ridge_joint = newJoint
                 
             elif nbraces == 2:
@@ -1192,7 +1196,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x - self.xmid()[0]) < 1e-6:
                     self.ridge_joint = newJoint
                     
             elif nbraces == 1:                
-- 
2.43.0


From 537a5c7e3edd7baf3999138910e5002c249c2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 113/214] fix: every part of the top chord carries the load of
 its zone exactly once

---
 metku/raami/raami_plane_truss.py | 50 +++++++++++++-------------------
 metku/raami/raami_vierendeel.py  | 50 +++++++++++++-------------------
 2 files changed, 40 insertions(+), 60 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index a0efde1..bec1ed0 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1104,39 +1104,29 @@ class SlopedTruss(PlaneTruss):
         """
         load_name0 = 'TC_' + ltype
         
+        # Tolerance for members starting or ending at a zone border
+        tol = 1e-6
+        
         for mem in self.top_chord:
-            if mem.nodes[1].x <= xzones[0]:
-                # Member is in the first zone
-                vals = [q[0],q[0]]
-                load_name = load_name0 + '_line'
-                self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
-                # Member is in the last zone
-                vals = [q[-1],q[-1]]
+            xs, xe = mem.nodes[0].x, mem.nodes[1].x
+            # Zone of the start of the member
+            zone = sum(xs > x - tol for x in xzones)
+            # Zone borders inside the member
+            inside = [i for i, x in enumerate(xzones) if xs + tol < x < xe - tol]
+            
+            if len(inside) == 0:
+                # Member is totally inside a zone
+                vals = [q[zone],q[zone]]
                 load_name = load_name0 + '_line'
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            else:
-                
-                for i, (x1, x2) in enumerate(zip(xzones[:-1],xzones[1:])):
-                    if mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
-                        # member is partially outside
-                        vals = [q[i],q[i+1]]
-                        xdiv = (x1-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x1
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
-                        # member is partially outside
-                        vals = [q[i+1],q[i+2]]
-                        xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x2
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x <= x2:
-                        # member is totally inside
-                        vals = [q[i+1],q[i+1]]
-                        load_name = load_name0 + '_line'
-                        self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
+            
+            for i in inside:
+                # The load changes from q[i] to q[i+1] at the border. After the first border
+                # only the change of the load is added.
+                vals = [q[i],q[i+1]] if i == zone else [0.0,q[i+1]-q[i]]
+                xdiv = (xzones[i]-xs)/(xe-xs)
+                load_name = load_name0 + '_pw_line'
+                self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
     
     def generate_joints(self):
         """ Creates joints for the truss. These are welded tubular joints by default. """
diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 0705f19..fdf1c38 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -1137,39 +1137,29 @@ class SlopedTruss(PlaneTruss):
         """
         load_name0 = 'TC_' + ltype
         
+        # Tolerance for members starting or ending at a zone border
+        tol = 1e-6
+        
         for mem in self.top_chord:
-            if mem.nodes[1].x <= xzones[0]:
-                # Member is in the first zone
-                vals = [q[0],q[0]]
-                load_name = load_name0 + '_line'
-                self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
-                # Member is in the last zone
-                vals = [q[-1],q[-1]]
+            xs, xe = mem.nodes[0].x, mem.nodes[1].x
+            # Zone of the start of the member
+            zone = sum(xs > x - tol for x in xzones)
+            # Zone borders inside the member
+            inside = [i for i, x in enumerate(xzones) if xs + tol < x < xe - tol]
+            
+            if len(inside) == 0:
+                # Member is totally inside a zone
+                vals = [q[zone],q[zone]]
                 load_name = load_name0 + '_line'
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            else:
-                
-                for i, (x1, x2) in enumerate(zip(xzones[:-1],xzones[1:])):
-                    if mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
-                        # member is partially outside
-                        vals = [q[i],q[i+1]]
-                        xdiv = (x1-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x1
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
-                        # member is partially outside
-                        vals = [q[i+1],q[i+2]]
-                        xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x2
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x <= x2:
-                        # member is totally inside
-                        vals = [q[i+1],q[i+1]]
-                        load_name = load_name0 + '_line'
-                        self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
+            
+            for i in inside:
+                # The load changes from q[i] to q[i+1] at the border. After the first border
+                # only the change of the load is added.
+                vals = [q[i],q[i+1]] if i == zone else [0.0,q[i+1]-q[i]]
+                xdiv = (xzones[i]-xs)/(xe-xs)
+                load_name = load_name0 + '_pw_line'
+                self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
     
     def generate_joints(self):
         """ Creates joints for the truss. These are welded tubular joints by default. """
-- 
2.43.0


From c4a758c25925e7909dde18e11e86d4c21fcec7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 114/214] fix: K joints without eccentricity in the en1993
 model of a truss

---
 metku/raami/raami_plane_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index bec1ed0..5061245 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1301,7 +1301,7 @@ class SlopedTruss(PlaneTruss):
                         xc = joint.xchord()
                     
                     if np.linalg.norm(xp-xc) < 1e-6:
-                        xcNode = xp
+                        xcNode = xpNode
                     else:
                         xcNode = self.fem.add_node(xc[0],xc[1])
                         
@@ -1327,7 +1327,7 @@ class SlopedTruss(PlaneTruss):
             # TODO! Change eccentricity elements to rigid links!
             # (Is it needed, or do IPE 500 elements suffice?)
             for joint in self.joints.values():
-                if isinstance(joint,TubularKGapJoint):
+                if isinstance(joint,TubularKGapJoint) and joint.fem_nodes['xp'] is not joint.fem_nodes['xc']:
                     n1 = joint.fem_nodes['xp']
                     n2 = joint.fem_nodes['xc']
                     cs = IPE(500)
-- 
2.43.0


From d71739c6836116bf9414fbadf65c2232bcb0a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 115/214] fix: chord ends without a joint in the en1993 model
 of a truss

---
 metku/raami/raami_plane_truss.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 5061245..0c6ff07 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1314,6 +1314,12 @@ class SlopedTruss(PlaneTruss):
                     joint.fem_nodes['xc'] = newNode
                     joint.node.fem_node = newNode
             
+            # Chord ends without braces have no joint
+            joint_nodes = [joint.node for joint in self.joints.values()]
+            for node in self.nodes:
+                if not any(node is joint_node for joint_node in joint_nodes):
+                    node.fem_node = self.fem.add_node(node.x,node.y)
+            
             for mem in self.braces.values():
                 #Generate member elements                
                 mem.generate_elements(self.fem,model,self.braces_as_beams)
@@ -1800,7 +1806,7 @@ class TopChord(SteelFrameMember):
                 self.fem_elements[-1].releases = [5]
         elif model == "en1993":
             # First end node
-            self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
+            self.fem_nodes.append(self.nodes[0].fem_node)
             
             # Generate internal nodes:
             # global_node_coord include also the end node coordinates,
@@ -1814,7 +1820,7 @@ class TopChord(SteelFrameMember):
                 self.fem_nodes.append(newNode)
             
             # Last end node
-            self.fem_nodes.append(self.joints[1].fem_nodes['xc'])
+            self.fem_nodes.append(self.nodes[1].fem_node)
             
             # Create members
             # The zip command allows to create two iterables, where the
@@ -1979,7 +1985,7 @@ class BottomChord(SteelFrameMember):
             super().generate_elements(fem)
         elif model == "en1993":
             # First end node
-            self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
+            self.fem_nodes.append(self.nodes[0].fem_node)
             
             # Generate internal nodes:
             # global_node_coord include also the end node coordinates,
@@ -1993,7 +1999,7 @@ class BottomChord(SteelFrameMember):
                 self.fem_nodes.append(newNode)
             
             # Last end node
-            self.fem_nodes.append(self.joints[1].fem_nodes['xc'])
+            self.fem_nodes.append(self.nodes[1].fem_node)
             
             # Create members
             # The zip command allows to create two iterables, where the
-- 
2.43.0


From 967a9203b3cb6e2eadcfdb1acc3eef9a3d111942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 116/214] fix: panels of the right half of a KT truss follow
 from its own length L2

---
 metku/raami/raami_plane_truss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 0c6ff07..044b659 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -880,6 +880,7 @@ class SlopedTruss(PlaneTruss):
                 # Distance between nodes in x direction
                 #Dx = (self.L1-2*dx1)/(ndiv-1)
                 Dx = (self.L1-dx1)/(ndiv-0.5)
+                Dx2 = (self.L2-dx2)/(ndiv-0.5)
             else:
                 # If the first bottom chord node is not at x = 0, do the
                 # following:
@@ -894,14 +895,16 @@ class SlopedTruss(PlaneTruss):
                     S = np.linspace(0,1,ndiv)
                     Xbot0 = FrameNode(np.array([self.origin[0],ycoord]))
                     Dx = self.L1/ndiv
+                    Dx2 = self.L2/ndiv
                 else:
                     # Distance between nodes in x direction
                     Dx = 2*self.L1/(2*ndiv+1)
+                    Dx2 = 2*self.L2/(2*ndiv+1)
             
             # First half
             if dx1 == 0 and not first_diagonal_up:
                 X0 = np.array([self.origin[0]+0.5*Dx,ycoord])
-                X2 = np.array([self.origin[0]+self.span-0.5*Dx,ycoord])
+                X2 = np.array([self.origin[0]+self.span-0.5*Dx2,ycoord])
             else:
                 X0 = np.array([self.origin[0]+dx1,ycoord])
                 X2 = np.array([self.origin[0]+self.span-dx2,ycoord])
@@ -913,7 +916,7 @@ class SlopedTruss(PlaneTruss):
             
             
             # Second half
-            X1[0] += Dx
+            X1[0] += 0.5*Dx + 0.5*Dx2
             
             Xbot += [FrameNode(X1+s*(X2-X1)) for s in S]
         
@@ -972,7 +975,7 @@ class SlopedTruss(PlaneTruss):
                     t, Xtop1 = top_line.intersect(bottom_line)                
                     Xtop.append(FrameNode(Xtop1))
                     
-                    p1New = X.coords + np.array([0.5*Dx,0])
+                    p1New = X.coords + np.array([0.5*Dx2,0])
                     bottom_line = Line(v=np.array([0.0,1.0]),p1=p1New)
                     t, Xtop2 = top_line.intersect(bottom_line)
                     
-- 
2.43.0


From 920af2f100387f45b8e05a1cd47e083ba0541682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 117/214] fix: loads of gap elements at the end of a chord

---
 metku/raami/raami_plane_truss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 044b659..fe2ef40 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1505,7 +1505,8 @@ class SlopedTruss(PlaneTruss):
                     if isinstance(joint,TubularKGapJoint):
                         # Add load to gap element
                         for load1 in joint.chords[0].loads:
-                            for load2 in joint.chords[1].loads:
+                            # At the end of a chord there is only one chord member
+                            for load2 in joint.chords[-1].loads:
                                 if load1.load_id == load2.load_id:
                                     if joint == self.ridge_joint:
                                         q = load1.f*load1.values[1]
-- 
2.43.0


From 183c97852dfa9a7efe09791123f16a4ea898581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 118/214] fix: chord stress function kn multiplies the
 resistance of Y and X joints, it is not an exponent

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 metku/raami/raami_plane_truss.py                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 6d8d763..0dfb927 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -832,7 +832,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -854,7 +854,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index fe2ef40..2a8b378 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2864,7 +2864,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -2877,7 +2877,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
-- 
2.43.0


From a557205e573ffb14e29d76d7e846ad4e4f7f34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 119/214] fix: design of K gap joints returns the utilization
 ratios instead of raising an exception

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 9 +++++++--
 metku/raami/raami_plane_truss.py                | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 0dfb927..e5fb56f 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -711,7 +711,7 @@ class RHSKGapJoint(RHSJoint):
 
         Returns
         -------
-        Utilization ratios N1Ed/NjRd and N2Ed/NjRd
+        Utilization ratios N1Ed/NjRd, N2Ed/NjRd and N0Ed/N0Rd
 
         """
         
@@ -730,7 +730,12 @@ class RHSKGapJoint(RHSJoint):
             N_ps_Rd = self.punching_shear()        
             NjRd = np.minimum(NjRd,N_ps_Rd)
 
-        res = np.array(abs(self.NEd)/NjRd,abs(self.N0/N0Rd))
+        if N0Rd > 0.0:
+            r0 = abs(self.N0/N0Rd)
+        else:
+            r0 = np.inf
+
+        res = np.append(abs(self.NEd)/NjRd,r0)
 
         return res
 
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2a8b378..bf6a133 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3486,7 +3486,12 @@ class TubularKGapJoint(TubularJoint):
             NjRd = np.minimum(NjRd,N_ps_Rd)
         
         #NjRd = N_cff_Rd
-        r = np.array(abs(NEd)/NjRd,abs(self.N0/N0Rd))
+        if N0Rd > 0.0:
+            r0 = abs(self.N0/N0Rd)
+        else:
+            r0 = np.inf
+
+        r = np.append(abs(NEd)/NjRd,r0)
         
         self.utilization[load_id] = max(r)
         
-- 
2.43.0


From 90dd6f4964759a1139586e55fd2aaf97426b09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 120/214] fix: force and angle of the tension brace and the
 chord force in the gap of a K joint

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index e5fb56f..b512b97 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -330,15 +330,15 @@ class RHSKGapJoint(RHSJoint):
     @property
     def N2(self):
         """ Axial force in the tension member """
-        if self.braces[0].NcEd <= 0.0:
-            return abs(self.braces[1].NcEd)
+        if self.braces[0].NcEd < 0.0:
+            return self.braces[1].NEd
         else:
             return self.braces[0].NEd
     
     @property
     def angle2(self):
         """ Angle of the tension member """
-        if self.braces[0].Ned <= 0.0:
+        if self.braces[0].NcEd < 0.0:
             return self.angles[1]
         else:
             return self.angles[0]
@@ -359,7 +359,7 @@ class RHSKGapJoint(RHSJoint):
             N0gap = self.N0+self.N2*np.cos(np.radians(self.angle2))
         else: 
             # Chord in tension            
-            N0gap = self.N0+self.N1*np.cos(np.radians(self.angle1))
+            N0gap = self.N0-self.N1*np.cos(np.radians(self.angle1))
     
         return N0gap
     
-- 
2.43.0


From 51282dbd3f4c45834f569c0e27dd228103d1d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 121/214] fix: side wall buckling of X joints reads the
 imperfection factor and shear area of the chord profile

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index b512b97..0d1811d 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -1019,7 +1019,7 @@ class RHSXJoint(RHSYJoint):
                 
                 
         if self.N1 < 0.0:            
-            alpha = self.chord.imp_factor[0]
+            alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
             chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
@@ -1040,7 +1040,7 @@ class RHSXJoint(RHSYJoint):
             # Take the minimium of chord web buckling for X joints
             # and chord shear for K and N joints
             # 
-            Nshear = self.fy0*self.chord.Ashear/np.sqrt(3)/np.sin(np.radians(self.angle))
+            Nshear = self.fy0*self.chord.profile.Ashear[1]/np.sqrt(3)/np.sin(np.radians(self.angle))
             # The strength reduction factor is already taken into account
             # for the chord web buckling of the Y joint class method.
             # It must be applied for the chord shear.
-- 
2.43.0


From c917a428c82d61a82a186b750f5eb1c7ad68d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 122/214] fix: chord side wall buckling of a truss Y joint is
 evaluated in the designed load case

---
 metku/raami/raami_plane_truss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index bf6a133..55ae783 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2870,9 +2870,9 @@ class TubularYJoint(TubularJoint):
 
         return NRd
     
-    def chord_web_buckling(self):
+    def chord_web_buckling(self,load_id):
         
-        fb = self.fb()
+        fb = self.fb(load_id)
         kn = self.eval_KN()
         r = self.strength_reduction()
         t0 = self.t0
@@ -2946,7 +2946,7 @@ class TubularYJoint(TubularJoint):
                 print('Chord face failure: NjRd = {0:4.2f} kN'.format(NjRd*1e-3))
         else:
             N_cff_Rd = self.chord_face_failure()
-            N_csw_Rd = self.chord_web_buckling()
+            N_csw_Rd = self.chord_web_buckling(load_id)
             N_bf_Rd = self.brace_failure()
             
             # Linear interpolation between chord face failure at b = 0.85
-- 
2.43.0


From c8eaec584469da26b5fc6aac5abd799907c5e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 123/214] fix: plastic section modulus of the chord about the
 axis of the chord moment

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 2 +-
 metku/raami/raami_plane_truss.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 0d1811d..d656191 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -245,7 +245,7 @@ class RHSJoint:
             used instead of elastic
         """
         A0 = self.chord.profile.A
-        Wpl0 = self.chord.profile.Wpl[1]
+        Wpl0 = self.chord.profile.Wpl[0]
         # s0Ed < 0 for compression
         s0Ed = -self.N0/A0+self.M0/Wpl0
         return s0Ed
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 55ae783..5f1f1ab 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2680,7 +2680,7 @@ class TubularJoint:
             used instead of elastic
         """
         A0 = self.chords[0].cross_section.A
-        Wpl0 = self.chords[0].cross_section[0].Wpl[1]
+        Wpl0 = self.chords[0].cross_section.Wpl[0]
         # s0Ed < 0 for compression
         s0Ed = -self.N0/A0+self.M0/Wpl0
         return s0Ed
-- 
2.43.0


From ae15c8de507037ab3c149797507d5cd31f3dfd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 124/214] fix: chord face plate of a K joint reads the heights
 of the braces

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index d656191..c8020d2 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -502,8 +502,8 @@ class RHSKGapJoint(RHSJoint):
 
         """
         
-        lp_min = 1.5*(self.braces[0].h/np.sin(np.radians(self.angles[0])) + self.gap + 
-                                              self.braces[1].h/np.sin(np.radians(self.angles[1])))
+        lp_min = 1.5*(self.h[0]/np.sin(np.radians(self.angles[0])) + self.gap + 
+                                              self.h[1]/np.sin(np.radians(self.angles[1])))
         
         lp = max(lp,lp_min)
         
-- 
2.43.0


From 1ff57a9d9ad725358acf2462f52c8e438d4e19ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 125/214] fix: brace force of a Y joint keeps its sign, and
 follows the brace member

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index c8020d2..1ec11b3 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -770,12 +770,16 @@ class RHSYJoint(RHSJoint):
             self.brace = brace
         self.angle = angle
         
-        self._N1 = self.brace.NEd
+        self._N1 = None
         
     @property
     def N1(self):
         """ Force in the brace """
-        #return self.brace.NEd
+        if self._N1 is None:
+            # Axial force of the brace member: negative, if in compression
+            if self.brace.NcEd < 0.0:
+                return self.brace.NcEd
+            return self.brace.NEd
         return self._N1
     
     @N1.setter
-- 
2.43.0


From 34cfa1f0b7f07ffb4b5302b7faf2c63a80bcf60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 126/214] fix: reduction factor of the chord side wall does not
 exceed 1

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 metku/raami/raami_plane_truss.py                | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 1ec11b3..831f660 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -821,7 +821,7 @@ class RHSYJoint(RHSJoint):
             alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
@@ -1026,7 +1026,7 @@ class RHSXJoint(RHSYJoint):
             alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             res = 0.8*chi * self.fy0*np.sin(np.radians(self.angle))            
         else:
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 5f1f1ab..d2424f7 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2838,7 +2838,7 @@ class TubularYJoint(TubularJoint):
             alpha = self.chords[0].cross_section.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
-- 
2.43.0


From 99a7633b90ed270cba320bab2ce3db405f74e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 127/214] fix: truss K joints are designed for the largest
 chord force and the magnitude of the shear in the gap

---
 metku/raami/raami_plane_truss.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index d2424f7..70b8509 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3135,7 +3135,10 @@ class TubularKGapJoint(TubularJoint):
     
     def V0gap(self,load_id):
         """ Shear force in the gap """
-        return max(self.fem_elements['gap'].fint[load_id]['fz'])
+        gap_elements = self.fem_elements['gap']
+        if not isinstance(gap_elements,list):
+            gap_elements = [gap_elements]
+        return max(abs(V) for ele in gap_elements for V in ele.fint[load_id]['fz'])
     
     @property
     def angles(self):
@@ -3436,10 +3439,8 @@ class TubularKGapJoint(TubularJoint):
         #    joint_brace.Ned = brace.NEd[load_id]
         
         """ Load in the chord """
-        if abs(self.chords[0].NEd[load_id]) < abs(self.chords[1].NEd[load_id]):
-            N0 = self.chords[0].NEd[load_id]
-        else:
-            N0 = self.chords[1].NEd[load_id]
+        # The largest axial force of the chord members at the joint
+        N0 = max([chord.NEd[load_id] for chord in self.chords],key=abs)
         
         M0 = 0.0
         """
-- 
2.43.0


From c4b23aa725f55186ae2667c1e7dd7e266842bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 128/214] fix: printed information of K and X joints

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 831f660..ed64373 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -572,7 +572,7 @@ class RHSKGapJoint(RHSJoint):
             print("  Brace: {0:s}".format(brace.profile.__repr__()))
             if brace.NcEd < 0:
                 Nsense = "compression"
-            elif max(brace.ned) > 0:
+            elif brace.NEd > 0:
                 Nsense = "tension"
             else:
                 Nsense = "no axial force"
@@ -583,7 +583,7 @@ class RHSKGapJoint(RHSJoint):
         print("  Beta = {0:4.2f}".format(beta))
         print("  Gamma = {0:4.2f}".format(self.gamma()))        
         print("  Gap = {0:4.2f} mm".format(self.gap))
-        print("    t1 + t2 = {0:4.2f} mm".format(sum([brace.profile.t for brace in self.braces])))
+        print("    t1 + t2 = {0:4.2f} mm".format(sum([brace.profile.T for brace in self.braces])))
         print("    0.5*b0*(1-beta) = {0:4.2f} mm".format(0.5*self.b0*(1-beta)))
         print("    1.5*b0*(1-beta) = {0:4.2f} mm".format(1.5*self.b0*(1-beta)))
         
@@ -1061,14 +1061,14 @@ class RHSXJoint(RHSYJoint):
         
         RHSJoint.info(self)
         
-        print("  Brace: {0:s}".format(self.brace.__repr__()))
-        if self.brace.Ned < 0:
+        print("  Brace: {0:s}".format(self.brace.profile.__repr__()))
+        if self.N1 < 0:
             Nsense = "compression"
-        elif self.brace.Ned > 0:
+        elif self.N1 > 0:
             Nsense = "tension"
         else:
             Nsense = "no axial force"
-        print("  NEd: {0:4.2f} kN ({1:s})".format(self.brace.Ned*1e-3,Nsense))
+        print("  NEd: {0:4.2f} kN ({1:s})".format(self.N1*1e-3,Nsense))
         print("    Angle to chord: {0:4.2f} deg".format(self.angle))
         
         beta = self.beta()
-- 
2.43.0


From 03fde5163b29c897fa8b6b16b59a27a8d5f2a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 129/214] fix: circumference of welded I sections includes both
 faces of the top flange

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index b2aeb28..cb00876 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -632,7 +632,7 @@ class WISection(SteelSection):
 
     def paint_area(self):
         """ Area to be painted (circumference of the section) """
-        return 2 * self.tt + self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
+        return 2 * self.tt + 2 * self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
                - 2 * self.tw
 
     def elastic_neutral_axis(self):
-- 
2.43.0


From 50e3f2fd2013697df86dee4c2f6835bdbb47a7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 130/214] fix: Wagner's factor of welded I sections is measured
 from the centroid

---
 metku/sections/steel/wi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index cb00876..a9a2d0a 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -476,9 +476,11 @@ class WISection(SteelSection):
             Book 2, 7.1.2 Mono-symmetrical I cross-sections
         """
 
-        zf1 = self.zt
-        zf2 = self.zb
-        zw = self.zw
+        # Positions of the plates with respect to the centroid
+        zG = self.elastic_neutral_axis()
+        zf1 = self.zt - zG
+        zf2 = self.zb - zG
+        zw = self.zw - zG
         Izf1 = self.Izt
         Izf2 = self.Izb
         Izw = self.Izw
-- 
2.43.0


From a3ff865f83cde2cba7243447c9c967c89ddb8562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 131/214] fix: buckling factor of an outstand part in uniform
 compression

---
 metku/eurocodes/en1993/en1993_1_5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_5.py b/metku/eurocodes/en1993/en1993_1_5.py
index ac23bf0..4674007 100644
--- a/metku/eurocodes/en1993/en1993_1_5.py
+++ b/metku/eurocodes/en1993/en1993_1_5.py
@@ -110,7 +110,7 @@ def buckling_factor_outstand(psi=1.0, sigma1="tip"):
     else:
         if psi == 1.0:
             ksigma = 0.43
-        if psi < 1.0 and psi > 0.0:
+        elif psi < 1.0 and psi > 0.0:
             ksigma = 0.578 / (psi + 0.34)
         elif psi == 0.0:
             ksigma = 1.7
-- 
2.43.0


From 1ad51c8187eb9009ea458ec9461be613a15b3eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 132/214] fix: shear buckling resistance does not exceed the
 plastic one of the web (EN 1993-1-5, Eq. 5.1)

---
 metku/sections/steel/wi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index a9a2d0a..b26ff31 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -921,7 +921,8 @@ class WISection(SteelSection):
             else:
                 raise NotImplementedError("shear_buckling_resistance rM >= 1 not implemented")
 
-            VbRd = Vbw_Rd + Vbf_Rd
+            # EN 1993-1-5, Eq. (5.1)
+            VbRd = min(Vbw_Rd + Vbf_Rd, en1993_1_5.shear_buckling_web(eta, fyw, hw, tw))
 
         return VbRd
 
-- 
2.43.0


From bba48ac2248617045fab451fb8f7dd604dd3be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 133/214] fix: flanges yielding under the axial force do not
 contribute to the shear buckling resistance

---
 metku/sections/steel/wi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index b26ff31..4a7e9a2 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -904,7 +904,11 @@ class WISection(SteelSection):
             else:
                 rN = 0
 
-            rM = abs(self.Med[0]) / ((1 - rN) * self.MfRd)
+            if rN < 1.0:
+                rM = abs(self.Med[0]) / ((1 - rN) * self.MfRd)
+            else:
+                # The flanges are fully utilized by the axial force
+                rM = math.inf
 
             if rM < 1.0:
                 if self.NtopRd <= self.NbottomRd:
-- 
2.43.0


From 3c2606146607a0539be30166ba19d716bb759cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 134/214] fix: factor 0.5 of bolts in shear belongs to the
 threaded portion (EN 1993-1-8, Table 3.4)

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 2e3c7f5..c931771 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2118,7 +2118,7 @@ def bolt_shear_resistance(fub,A,bolt_class=8.8,threads_in_plane=False):
             FvRd .. bolt shear resistance [N]
     """
     
-    if threads_in_plane:
+    if not threads_in_plane:
         av = 0.6
     else:
         if bolt_class in {10.9,6.8,5.8,4.8}:
-- 
2.43.0


From 63af03abfe5ddd5c29089d5c2736cc446fc69f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 135/214] fix: bearing resistance lacks the partial factor and
 the limit from bolt distance

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index c931771..f72d0b4 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2157,14 +2157,14 @@ def bolt_bearing_resistance(fub,fu,d,t,e,p,d0,pos_perp="edge",pos_load="edge"):
         ad = p1/3/d0 - 0.25    
 
     if pos_perp == "edge":
-        k1 = min(2.8*e2/d0-1.7,2.5)
+        k1 = min(2.8*e2/d0-1.7,1.4*p2/d0-1.7,2.5)
     else:
         k1 = min(1.4*p2/d0-1.7,2.5)
         
     
     ab = min(ad,fub/fu,1.0)
     
-    FbRd = k1*ab*fu*d*t    
+    FbRd = k1*ab*fu*d*t/gammaM2
     
     return FbRd
 
-- 
2.43.0


From a2717d42be76c6a0190ef016caf6ab41291a4991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 136/214] fix: changing to a bolt size that is not available in
 the required length fails

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index f72d0b4..bcdcd3a 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -207,6 +207,9 @@ class Bolt:
         self.washer_t = washer_size[val]["h"]
         self.washer_d = washer_size[val]["d2"]
         
+        # If the bolt is not available, the minimum length is kept
+        length = self._length
+        bolt_type = 'Full thread'
         bolt_available = False
         for key, value in bolt_unit_cost_part_thread.items():
             if key >= self._length:
-- 
2.43.0


From dc4bf8d7616b8099e94b0461de44b357c26240c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 137/214] fix: resistance of joints with column web stiffeners
 cannot be evaluated

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py       | 6 ++----
 metku/structures/steel/end_plate_joint.py             | 4 +---
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 73eb1e0..ded0882 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -234,7 +234,7 @@ def col_web_trv_comp_stiffened(column, plate):
     e = column.eps
     tw = column.tw
     bsg = plate.b
-    ts = plate.khp
+    ts = plate.t
     
     fy = plate.material.fy
     As_eff = (30*e*tw+ts)*tw + 2*bsg*ts
diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index bcdcd3a..515de47 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -574,13 +574,13 @@ class BoltRow:
         if self.z > zbeam:
             """ Row is above the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    + 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    + 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     + 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             return self.z-zweld
         else:
             """ Row is below the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    - 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    - 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     - 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             
             return zweld-self.z
@@ -795,8 +795,6 @@ class BoltRow:
         #self.Tstub_col_flange.emin = self.emin_flange
         #self.Tstub_col_flange.m = self.col_flange_m
         #self.Tstub_col_flange.e = self.col_flange_e
-        if self.joint.stiffeners['col_top_flange'] is not None:
-            self.Tstub_col_flange.m2 = self.top_flange_stiffener_m2
         """ Determine effective length 
             The 'leff_1' and 'leff_2' methods store the
             effective length of each failure mode to the T-stub,
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 6d302b2..bbdc2ce 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -341,7 +341,7 @@ class EndPlateJoint:
                     hp = self.beam.h
                     bp = self.col.hw
                 tp = value
-                plate = RectPlate(hp,bp,tp,material=self.col.material.name)
+                plate = RectPlate(bp,hp,tp,material=self.col.material.name)
             elif key == 'plate':
                 plate = value
             
@@ -369,9 +369,7 @@ class EndPlateJoint:
                         self.bolt_rows[0].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
                     else:
                         self.bolt_rows[0].loc_col_flange = END_ROW_ADJACENT_TO_STIFFENER
-                    self.bolt_rows[0].Tstub_col_flange.m2 = self.bolt_rows[0].top_flange_stiffener_m2
                     self.bolt_rows[1].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
-                    self.bolt_rows[1].Tstub_col_flange.m2 = self.bolt_rows[1].top_flange_stiffener_m2
                     
                     for group in self.row_groups:
                         for i, row in enumerate(group.rows):
-- 
2.43.0


From b14ea34fc580fbc81a714ad71009637d56661c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 138/214] fix: added shear resistance of stiffened column web
 is a force (EN 1993-1-8, Eq. 6.8)

---
 metku/structures/steel/end_plate_joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index bbdc2ce..bf7d5bd 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -399,7 +399,7 @@ class EndPlateJoint:
                 beam flanges (this may not be true for top stiffener for flushed end-plat)
             """
             ds = self.beam.h-self.beam.tf            
-            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()
+            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()/ds
             fyt = self.stiffeners['col_top_flange'].fy
             tst = self.stiffeners['col_top_flange'].t
             fyb = self.stiffeners['col_bottom_flange'].fy
-- 
2.43.0


From 369c4ffb8613160152d89064639fd24b380cef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 139/214] fix: first row of a flush end plate is adjacent to
 the stiffener also in its groups

---
 metku/structures/steel/end_plate_joint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index bf7d5bd..e02ca6a 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -386,6 +386,10 @@ class EndPlateJoint:
                 else:
                     """ In this case the first row is below the top flange of the beam """
                     self.bolt_rows[0].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
+                    for group in self.row_groups:
+                        for i, row in enumerate(group.rows):
+                            if row == self.bolt_rows[0]:
+                                group.row_loc[i]['flange'] = ADJACENT_TO_STIFFENER_ROW
                 pass
                 
                 
-- 
2.43.0


From f5592dd304a288b2a7c0419b990b7ec6b2b55002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 140/214] fix: reduction factor for web shear grows with beta
 between 1 and 2 (EN 1993-1-8, Table 6.3)

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index ded0882..e87e21b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -31,7 +31,7 @@ def min_coeff_w(beta, b_eff_c_wc, t_wc, A_vc):
     elif beta == 1.0:
         w = w_1
     elif 1.0 < beta < 2.0:
-        w = w_1 + 2.0 * (beta - 1.0) * (1.0 - w_1)
+        w = w_1 + (beta - 1.0) * (w_2 - w_1)
     elif beta == 2.0:
         w = w_2
     else:
-- 
2.43.0


From 86c298eaa16f57bd6a982834b81cd336749340bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 141/214] fix: edge distance of the end plate T-stub is the
 smaller one of plate and column flange

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 515de47..66fc49a 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1559,12 +1559,7 @@ class TStubEndPlate(TStub):
     @property
     def emin(self):
         """ See Fig. 6.10 of EN 1993-1-8:2005 """
-        if self.bolts.loc_end_plate == ROW_OUTSIDE_BEAM_TENSION_FLANGE:
-            emin = self.bolts.ex
-        else:
-            emin = self.bolts.end_plate_e
-            
-        return emin
+        return self.bolts.emin_plate
     
     @property
     def m(self):
-- 
2.43.0


From 0c1eb7b64e97150f4cabae4cea876b16a6176b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 142/214] fix: shear rows do not take part in the equivalent
 stiffness

---
 metku/structures/steel/end_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index e02ca6a..094f9d3 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -619,8 +619,8 @@ class EndPlateJoint:
 
     def keq(self,verb=False):
         """ Equivalent stiffness of the tension rows """
-        keff = np.array([row.keff() for row in self.bolt_rows])
-        hr = self.hr()
+        keff = np.array([row.keff() for row in self.bolt_rows if row.type != SHEAR_ROW])
+        hr = self.hr('non-shear')
         
     
         return sum(keff*hr)/self.zeq(verb)
-- 
2.43.0


From b0f5345cc821e692eaffd6198eaf0d2abbf34aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 143/214] fix: initial stiffness of a joint with one tension
 row

---
 metku/structures/steel/end_plate_joint.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 094f9d3..0611b7b 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -688,13 +688,7 @@ class EndPlateJoint:
         
         E = self.col.material.E
         
-        if self.tension_rows == 1:
-            """ Only one tension row: moment arm is the distance
-                between bottom 
-            """
-            z = self.moment_arm()
-        else:
-            z, k_eq = self.zeq_and_keq(verb)
+        z, k_eq = self.zeq_and_keq(verb)
         
         kcomp = self.k_comp(z)
         
-- 
2.43.0


From a9708187994b3d718c72bbc50c7e5e2e1f0c15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 144/214] fix: shear rows do not take part in the bending
 resistance

---
 metku/structures/steel/end_plate_joint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 0611b7b..864f55d 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -597,7 +597,8 @@ class EndPlateJoint:
         
         MjRd = 0.0
         for row in self.bolt_rows:
-            MjRd += row.FtRd * row.h
+            if row.type != SHEAR_ROW:
+                MjRd += row.FtRd * row.h
         
         if verb:
             print("MjRd = {0:4.2f} kNm".format(MjRd*1e-6))
-- 
2.43.0


From afb98f1479d67b4a992c072b5f8dde06252c8844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 145/214] fix: effective length of a T-stub belongs to the
 present dimensions

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 66fc49a..1cf08ae 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1261,11 +1261,8 @@ class TStub:
             
         """
         
-        """ If no failure mode has been detected,
-            calculate resistance of the T-stub
-        """
-        if self.failure_mode == -1:
-            self.FT_Rd()
+        """ Determine the failure mode for the present dimensions """
+        self.FT_Rd()
          
         if self.failure_mode == 0:
             """ Complete mechanism governs """
@@ -1714,11 +1711,8 @@ class TStubGroup:
         """ Returns the effective width of the T-stub
         """
         
-        """ If no failure mode has been detected,
-            calculate resistance of the T-stub
-        """
-        if self.failure_mode == -1:
-            self.FT_Rd()
+        """ Determine the failure mode for the present dimensions """
+        self.FT_Rd()
          
         if self.failure_mode == 0:
             """ Complete mechanism governs """
@@ -1808,7 +1802,7 @@ class TStubGroup:
             
         return FRd
     
-    def FT_Rd(self,verb):
+    def FT_Rd(self,verb=False):
         """ Design tension resistance """
         
         FT_Rd = np.array([0.0,0.0,0.0])
-- 
2.43.0


From b02f9097acf0de8cf0be5c0eb0dffcc94dbf59f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 146/214] fix: distance of a bolt row from the top of the plate
 after the plate has changed

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 1cf08ae..0dd066a 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -451,7 +451,7 @@ class BoltRow:
     @property
     def z_top(self):
         """ Distance of the bolt row from the top of the end plate """
-        return self._z_top
+        return self.ex
     
     @z_top.setter
     def z_top(self,val):
-- 
2.43.0


From 73799e289305cc7273b3776bf7be9aa756e65a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 147/214] fix: a bolt that is not available in the required
 length fails instead of warning

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 0dd066a..92df4ed 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -121,7 +121,7 @@ class Bolt:
         bolt_type = 'Full thread'
         bolt_available = False
         for key, value in bolt_unit_cost_part_thread.items():
-            if key >= length:
+            if key != 'max' and key >= length:
                 if value[size] != 'N/A':
                     length = key                    
                     bolt_available = True
@@ -133,7 +133,7 @@ class Bolt:
         """
         if not bolt_available:
             for key, value in bolt_unit_cost_full_thread.items():
-                if key >= length:
+                if key != 'max' and key >= length:
                     if value[size] != 'N/A':
                         length = key                    
                         bolt_available = True                        
@@ -212,7 +212,7 @@ class Bolt:
         bolt_type = 'Full thread'
         bolt_available = False
         for key, value in bolt_unit_cost_part_thread.items():
-            if key >= self._length:
+            if key != 'max' and key >= self._length:
                 if value[val] != 'N/A':
                     length = key                    
                     bolt_available = True
@@ -224,7 +224,7 @@ class Bolt:
         """
         if not bolt_available:
             for key, value in bolt_unit_cost_full_thread.items():
-                if key >= self._length:
+                if key != 'max' and key >= self._length:
                     if value[val] != 'N/A':
                         length = key                    
                         bolt_available = True
-- 
2.43.0


From d93fc09a0bc93033725301f26c9f47e7d1dfadd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 148/214] fix: open profile of a wall thickness given as an
 integer

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index 919ecb1..cef1db9 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -40,7 +40,7 @@ class OpenProf:
                 self.nodes.append(Node(y=node[0],z=node[1]))
         
         #self.nodes = np.array(nodes)
-        if isinstance(t,float):
+        if isinstance(t,(int,float)):
             self.t = t*np.ones(n-1)
         else:
             self.t = np.array(t)
-- 
2.43.0


From 6c03f71b03e6af9b1e585e0713aab4421c7aa3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 149/214] fix: torsion constant of an open profile after its
 segments have changed

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index cef1db9..c1a06a6 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -305,13 +305,11 @@ class OpenProf:
         return Iww + z_sc*Iyw - y_sc*Izw
     
     def torsion_constant(self):
-        dA = np.array([s.area() for s in self.segments])
-        
-        return sum(dA*np.array(self.t)**2/3)
+        return sum(s.area()*s.t**2/3 for s in self.segments)
     
     def torsion_modulus(self):
         
-        return self.torsion_constant()/min(self.t)
+        return self.torsion_constant()/min(s.t for s in self.segments)
     
     def split_segment(self,n,s):
         """ Splits a segment into two by adding a point 
-- 
2.43.0


From a6c43ffab86ba20dd2bc45e425a689c0094a6e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 150/214] fix: principal axes of an open profile cannot be
 evaluated

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index c1a06a6..58f3a16 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -233,8 +233,8 @@ class OpenProf:
         else:
             a = 0
             
-        I1 = 0.5*(Iy+Iz+np.sqrt(d^2+4*Iyz^2))
-        I2 = .5*(Iy+Iz-np.sqrt(d^2+4*Iyz^2))
+        I1 = 0.5*(Iy+Iz+np.sqrt(d**2+4*Iyz**2))
+        I2 = .5*(Iy+Iz-np.sqrt(d**2+4*Iyz**2))
         
         return [I1,I2], a
     
-- 
2.43.0


From 9294f99a20f287f12b7ee1ad616c62211a9fc62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 151/214] fix: factor k3 of local transverse forces (EN
 1993-1-3, 6.1.7.2)

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index df7dfdb..426698b 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -173,7 +173,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         return min(max(1.15-0.15*r/t,0.5),1.0)
     
     def k3(phi):
-        return 0.7 + 0.3*(phi/90**2)
+        return 0.7 + 0.3*(phi/90)**2
 
     def k4(k):
         return 1.22-0.22*k
-- 
2.43.0


From d200fab7ba06be51c4679a870ea3f9152800604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 152/214] fix: local transverse resistance of webs with
 rotation prevented (EN 1993-1-3, Eq. 6.16)

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 426698b..1b9f22d 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -201,13 +201,13 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         if hw_t < 66.5:
             return 1/k
         else:
-            return (1.1-hw_t/665)*k
+            return (1.1-hw_t/665)/k
     
     def k9(t):
-        return 0.82 + 0.15*t/0.19
+        return 0.82 + 0.15*t/1.9
     
     def k10(hw,t,k):
-        return (0.98-hw/t/865)*k
+        return (0.98-hw/t/865)/k
     
     def k11(t):
         return 0.64+0.31*t/1.9
@@ -222,7 +222,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         # of the member.
         if c <= 1.5*hw:
             if web_stiffeners:
-                C0 = k7(hw,t)*(8.8+1.1*np.sqrt(ss/t))
+                C = k7(hw,t)*(8.8+1.1*np.sqrt(ss/t))
             else:
                 # Load is close to the end of the member
                 C0 = k1(k)*k2(r,t)*k3(phi)
@@ -236,7 +236,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
                         C = C0*(5.92-hw/t/132)*(0.71+0.015*ss_t)
         else:
             if web_stiffeners:
-                C0 = k5_star(k)*k6(t)*(13.2+2.87*np.sqrt(ss/t))                
+                C = k5_star(k)*k6(t)*(13.2+2.87*np.sqrt(ss/t))                
             else:
                 C0 = k3(phi)*k4(k)*k5(r,t)
                 ss_t = ss/t
@@ -252,14 +252,14 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         # the two forces separately.
         if c <= 1.5*hw:
             if web_stiffeners:
-                C0 = k10(hw,t,k)*k11(t)*(8.8+1.1*np.sqrt(ss/t))
+                C = k10(hw,t,k)*k11(t)*(8.8+1.1*np.sqrt(ss/t))
             else:
                 # Load is close to the end of the member
                 C0 = k1(k)*k2(r,t)*k3(phi)
                 C = C0*(6.66-hw/t/64)*(1+0.01*ss/t)
         else:
             if web_stiffeners:
-                C0 = k8(hw,t,k)*k9(t)*(13.2+2.87*np.sqrt(ss/t))
+                C = k8(hw,t,k)*k9(t)*(13.2+2.87*np.sqrt(ss/t))
             else:
                 C0 = k3(phi)*k4(k)*k5(r,t)
                 C = C0*(21.0-hw/t/16.3)*(1+0.0013*ss/t)
-- 
2.43.0


From fcfbc8c4cbe475d9eaad5b900836e1a59d251b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 153/214] fix: rotational stiffness of sheeting in negative
 position cannot be evaluated

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 1b9f22d..4ef325e 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -555,7 +555,7 @@ def CD_A(ba,tnom,position,A,bT,bR,load='gravity'):
             C100 = 5.2
         else:
             bT_max = 120
-            C10 = 3.1
+            C100 = 3.1
     else:
         C100 = 2.6
         bT_max = 40
-- 
2.43.0


From 65a072f0e43c3d3c619af27b36eb653ffc098319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 154/214] fix: rotational stiffness of sheeting for thicknesses
 between the tabulated ones (EN 1993-1-3, Eq. 10.17)

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 4ef325e..e4de906 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -533,15 +533,19 @@ def CD_A(ba,tnom,position,A,bT,bR,load='gravity'):
     
     if load == 'gravity':
         if position == 'pos':
-            if tnom == 0.75:
+            if tnom <= 0.75:
                 kA = 1.0+(A-1.0)*0.08
             elif tnom >= 1.0:
                 kA = 1.0+(A-1.0)*0.095
+            else:
+                kA = 1.0+(A-1.0)*linear_interpolation((0.75,0.08),(1.0,0.095),tnom)
         else:
-            if tnom == 0.75:
+            if tnom <= 0.75:
                 kA = 1.0+(A-1.0)*0.16
             elif tnom >= 1.0:
                 kA = 1.0+(A-1.0)*0.095
+            else:
+                kA = 1.0+(A-1.0)*linear_interpolation((0.75,0.16),(1.0,0.095),tnom)
     else:
         kA = 1.0
     
-- 
2.43.0


From b7cbcc098830c8bbda3e691897d3f3746d204977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 155/214] fix: non-effective part of an unstiffened bottom
 flange

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index 31b8ac2..126fd1f 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -1702,6 +1702,7 @@ class CSection(ZSection):
             #prof_eff.nodes[-1].y -= (1-self._rho_t)*self.bp_t
             if self._rho_b < 1.0:
                 prof_eff.nodes[1].y = self._rho_b*self.bp_b + self.gr
+                prof_eff.segments[0].t = 0.0
                 
             
 
-- 
2.43.0


From f2590acb52286fe0a9fd84fea60e8e602382ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 156/214] fix: non-effective part of a flange with an edge
 stiffener is in the middle of the flange

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index 126fd1f..c4ffbd2 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -1633,6 +1633,7 @@ class CSection(ZSection):
             # If the top flange is not entirely effective,
             # make the thickness of the non-effective segment zero.
             if self._rho_t < 1.0:
+                prof_eff.nodes[ntop-1].y = self.gr + 0.5*self._rho_t*self.bp_t
                 prof_eff.segments[ntop-1].t = 0
             
                               
@@ -1675,6 +1676,7 @@ class CSection(ZSection):
             # If the bottom flange is not entirely effective,
             # make the thickness of the non-effective segment zero.
             if self._rho_b < 1.0:
+                prof_eff.nodes[nbot+1].y = self.gr + 0.5*self._rho_b*self.bp_b
                 prof_eff.segments[nbot].t = 0
             
             """
-- 
2.43.0


From 91185587d79b69b6adfecb7c708ae681ec700571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 157/214] fix: non-effective part of an edge stiffener

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index c4ffbd2..bad1387 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -1629,6 +1629,9 @@ class CSection(ZSection):
             # Reduce the thickness of edge stiffener, if needed
             for segment in prof_eff.segments[ntop:]:
                 segment.t *= self._chi_d_t
+            
+            if self._rho_t_lip < 1.0:
+                prof_eff.segments[-1].t = 0.0
                 
             # If the top flange is not entirely effective,
             # make the thickness of the non-effective segment zero.
@@ -1673,6 +1676,9 @@ class CSection(ZSection):
             for segment in prof_eff.segments[:nbot]:
                 segment.t *= self._chi_d_b
             
+            if self._rho_b_lip < 1.0:
+                prof_eff.segments[0].t = 0.0
+            
             # If the bottom flange is not entirely effective,
             # make the thickness of the non-effective segment zero.
             if self._rho_b < 1.0:
@@ -1727,6 +1733,8 @@ class CSection(ZSection):
             #z_lip  = corner[1]-self.bt_lip_center*self._rho_t_lip
             #nodes = [[y_edge,corner[1]],corner,[corner[0],z_lip]]
             self.edge_stiff[flange] = OpenProf(nodes,self.t)
+            if self._rho_t_lip < 1.0:
+                self.edge_stiff[flange].segments[-1].t = 0.0
             #self.edge_stiff[flange].draw()
             """
             self.edge_stiff[flange].draw()
@@ -1744,9 +1752,11 @@ class CSection(ZSection):
             nodes[-1].y = self.bp_b+self.gr-0.5*self.bp_b*self._rho_b
             
             if self._rho_b_lip < 1.0:
-                nodes[1].z = nodes[0].z + (1-self._rho_b_lip)*self.bp_b_lip
+                nodes[1].z = nodes[0].z - (1-self._rho_b_lip)*self.bp_b_lip
             
             self.edge_stiff[flange] = OpenProf(nodes,self.t)
+            if self._rho_b_lip < 1.0:
+                self.edge_stiff[flange].segments[0].t = 0.0
             """
             corner = list(self.prof.nodes[1].coord)            
             y_edge = corner[0]-0.5*self.bb_center*self._rho_b
-- 
2.43.0


From 38924569d795db004d7bf0b7318e428d7a2edb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 158/214] fix: effective section of a load depends on the load
 evaluated before

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index bad1387..592d4fd 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -1045,6 +1045,11 @@ class ZSection:
                             for distortional buckling
         """
         
+        # Effective parts of a previous load do not remain
+        self._rho_t = self._rho_b = self._rho_w = 1.0
+        self._rho_t_lip = self._rho_b_lip = 1.0
+        self._chi_d_t = self._chi_d_b = 1.0
+        
         if load == 'bending_y_pos':
             """ Positive bending:
                 top flange in compression
-- 
2.43.0


From 18974f2a26108f7b6bcb2be0e21494ddeecaeed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 159/214] fix: distortional buckling of a section with one edge
 stiffener

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index 592d4fd..e62ff4c 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -1145,6 +1145,8 @@ class ZSection:
         if self.Ned < 0.0:
             if self.issymmetric():
                 kf = 1.0
+            elif self.edge_stiff[f2] is None:
+                kf = 0.0
             else:
                 kf = self.edge_stiff[f2].area()/self.edge_stiff[f1].area()
         elif self.Med > 0.0 and flange == 'top':            
-- 
2.43.0


From 9adc2729eff50d6b559c2c6c83c646a4711fb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 160/214] fix: effective section of a Z-section cannot be
 evaluated

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 351 ++++++------------
 1 file changed, 118 insertions(+), 233 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index e62ff4c..387589b 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -106,6 +106,9 @@ def corner_points(xc,r,phi=[0,np.pi],n=6):
 class ZSection:
     """ Class for unstiffened Z-sections """
     
+    # Bottom flange is on the other side of the web than the top flange
+    bottom_side = -1
+    
     def __init__(self,t_nom=2.0,h=120,a=60,b=60,ca=20,cb=20,r=2.0,
                  material="S350GD",t_coat=0.04,
                  MEd=0.0, NEd=0.0, VEd=0.0,corners=True):
@@ -597,119 +600,196 @@ class ZSection:
             self.create_model()
                     
         prof_eff = deepcopy(self.prof)
-        
+                
         if self._rho_w < 1.0:
             """ Effective web """            
             if self._psi_w < 0.0:
-                hc = self.hw_center/(1-self._psi_w)
+                hc = self.bp_w/(1-self._psi_w)
                 beff = self._rho_w * hc
                 be1 = 0.4*beff
                 be2 = 0.6*beff                
             elif self._psi_w < 1.0:
-                hc = self.hw_center
-                beff = self._rho_w * self.hw_center
+                hc = self.bp_w
+                beff = self._rho_w * hc
                 be1 = 2*beff/(5-self._psi_w)
                 be2 = beff-be1            
             else:
-                hc = self.hw_center
-                beff = self._rho_w * self.hw_center
+                hc = self.bp_w
+                beff = self._rho_w * hc
                 be1 = 0.5*beff
                 be2 = 0.5*beff
         
             bneg = hc-beff
             # Part of the web in tension
-            ht = self.hw_center-hc
+            #ht = self.hw_center-hc
         
             if self.cb > 0:
                 nweb = 2
             else:
                 nweb = 1
             
-            nw_top = prof_eff.parts['web']['nodes'][2]
-            nw_bot = prof_eff.parts['web']['nodes'][1]
-            
+            """
+            s = (be2+ht)/self.hw_center
+            prof_eff.split_segment(nweb,s)
+            s2 = bneg/(be1+bneg)
+            prof_eff.split_segment(nweb+1,s2)
+            prof_eff.segments[nweb+1].t = 0.0
+            """
+            nw_top = self.parts['web']['nodes'][2]
+            nw_bot = self.parts['web']['nodes'][1]
             
-            prof_eff.nodes[nw_top].z = prof_eff.nodes[nw_top+1].z + self.gr - be1
+            print(be1,be2, bneg)
+                    
+            prof_eff.nodes[nw_top].z = prof_eff.nodes[nw_top+1].z + self.rm*np.sin(np.radians(45)) - be1
             prof_eff.nodes[nw_bot].z = prof_eff.nodes[nw_top].z - bneg
             
             prof_eff.segments[nw_bot].t = 0.0
-            
-            #s = (be2+ht)/self.hw_center
-            #prof_eff.split_segment(nweb,s)
-            #s2 = bneg/(be1+bneg)
-            #prof_eff.split_segment(nweb+1,s2)
-            #prof_eff.segments[nweb+1].t = 0.0
         
         if self.ca > 0.0:            
             """ Edge stiffener is present """
-            # Number of segments in the section            
-            #nseg = prof_eff.n-1
+            # Number of segments in the section
+            
+            ntop = self.parts['top_flange']['nodes'][-2]
+            
+            # Reduce the thickness of edge stiffener, if needed
+            for segment in prof_eff.segments[ntop:]:
+                segment.t *= self._chi_d_t
             
+            if self._rho_t_lip < 1.0:
+                prof_eff.segments[-1].t = 0.0
+                
+            # If the top flange is not entirely effective,
+            # make the thickness of the non-effective segment zero.
+            if self._rho_t < 1.0:
+                prof_eff.nodes[ntop-1].y = self.gr + 0.5*self._rho_t*self.bp_t
+                prof_eff.segments[ntop-1].t = 0
+            
+                              
+            
+            """
+            nseg = prof_eff.n-1
             # Move the node of the edge stiffener up
-            #prof_eff.nodes[-1].z += (1-self._rho_t_lip)*self.bt_lip_center
+            prof_eff.nodes[-1].z += (1-self._rho_t_lip)*self.bt_lip_center
                     
             # Split the top flange into two parts
-            #s = 0.5*self._rho_t            
-            #prof_eff.split_segment(nseg-2,s)
+            s = 0.5*self._rho_t            
+            prof_eff.split_segment(nseg-2,s)
                         
             #prof_eff.draw(node_labels=True)
             if self._rho_t < 1.0:
                 s2 = (1-self._rho_t)*self.bt_center/prof_eff.segments[-2].length()
                 prof_eff.split_segment(nseg-1,s2)
-                prof_eff.segments[nseg-1].t = 0.0
+                prof_eff.segments[nseg-1].khp = 0.0
+                
             prof_eff.segments[-2].t *= self._chi_d_t
             prof_eff.segments[-1].t *= self._chi_d_t
-                        
+            """          
         else:
             """ The effective top flange is an outstand element """
-            #prof_eff.nodes[-2].y -= (1-self._rho_t)*self.bp_t + self.gr
-            prof_eff.nodes[-2].y = self._rho_t*self.bp_t + self.gr
-            prof_eff.segments[-1].t = 0.0
+            #prof_eff.nodes[-1].y -= (1-self._rho_t)*self.bp_t
+            if self._rho_t < 1.0:
+                prof_eff.nodes[-2].y = self._rho_t*self.bp_t + self.gr
+                prof_eff.segments[-1].t = 0.0
 
+        
         if self.cb > 0.0:
             """ Edge stiffener is present in the bottom flange """
             
+            nbot = self.parts['bottom_flange']['nodes'][1]
+            
+            # Reduce the thickness of edge stiffener, if needed
+            for segment in prof_eff.segments[:nbot]:
+                segment.t *= self._chi_d_b
+            
+            if self._rho_b_lip < 1.0:
+                prof_eff.segments[0].t = 0.0
+            
+            # If the bottom flange is not entirely effective,
+            # make the thickness of the non-effective segment zero.
+            if self._rho_b < 1.0:
+                prof_eff.nodes[nbot+1].y = self.bottom_side*(self.gr + 0.5*self._rho_b*self.bp_b)
+                prof_eff.segments[nbot].t = 0
+            
+            """
             # Move the node of the edge stiffener down
             prof_eff.nodes[0].z -= (1-self._rho_b_lip)*self.bb_lip_center
             
             # Split the bottom flange into two parts
             s = 0.5*self._rho_b
             prof_eff.split_segment(1,s)
-                        
+            """            
             """ If there is a non-effective part of the bottom flange
                 remove that too.
             """
+            """
             if self._rho_b < 1.0:
                 s2 = (1-self._rho_b)*self.bb_center/prof_eff.segments[2].length()
                 prof_eff.split_segment(2,s2)
                 prof_eff.segments[2].khp = 0.0
             prof_eff.segments[0].t *= self._chi_d_b
-            prof_eff.segments[1].t *= self._chi_d_b
+            prof_eff.segments[1].t *= self._chi_d_b        
+            """
+        else:
+            
+            """ The effective bottom flange is an outstand element """
+            #prof_eff.nodes[-1].y -= (1-self._rho_t)*self.bp_t
+            if self._rho_b < 1.0:
+                prof_eff.nodes[1].y = self.bottom_side*(self._rho_b*self.bp_b + self.gr)
+                prof_eff.segments[0].t = 0.0
+                
+            
 
         self.prof_eff = prof_eff
-                            
-    
+            
     def create_edge_stiffener(self,flange='top'):
         """ Creates a model for the edge stiffener of a flange """
-        if flange == 'top':
+        if flange == 'top':            
             n1 = self.parts['top_flange']['nodes'][-2]
             n2 = self.parts['top_lip']['nodes'][-1]
             nodes = self.prof.nodes[n1:n2+1]
             
+            nodes[0].y = self.bp_t+self.gr-0.5*self.bp_t*self._rho_t
+            
+            if self._rho_t_lip < 1.0:            
+                nodes[-2].z = nodes[-1].z + (1-self._rho_t_lip)*self.bp_t_lip
+            
             #corner = list(self.prof.nodes[-2].coord)
             #y_edge = corner[0]-0.5*self.bt_center*self._rho_t
             #z_lip  = corner[1]-self.bt_lip_center*self._rho_t_lip
             #nodes = [[y_edge,corner[1]],corner,[corner[0],z_lip]]
             self.edge_stiff[flange] = OpenProf(nodes,self.t)
-            
+            if self._rho_t_lip < 1.0:
+                self.edge_stiff[flange].segments[-1].t = 0.0
+            #self.edge_stiff[flange].draw()
+            """
             self.edge_stiff[flange].draw()
+            corner = list(self.prof.nodes[-2].coord)
+            y_edge = corner[0]-0.5*self.bt_center*self._rho_t
+            z_lip  = corner[1]-self.bt_lip_center*self._rho_t_lip
+            nodes = [[y_edge,corner[1]],corner,[corner[0],z_lip]]
+            self.edge_stiff[flange] = OpenProf(nodes,self.t)
+            """
         else:
+            n1 = self.parts['bottom_lip']['nodes'][0]
+            n2 = self.parts['bottom_flange']['nodes'][1]            
+            nodes = self.prof.nodes[n1:n2+1]
+            
+            nodes[-1].y = self.bottom_side*(self.bp_b+self.gr-0.5*self.bp_b*self._rho_b)
+            
+            if self._rho_b_lip < 1.0:
+                nodes[1].z = nodes[0].z - (1-self._rho_b_lip)*self.bp_b_lip
+            
+            self.edge_stiff[flange] = OpenProf(nodes,self.t)
+            if self._rho_b_lip < 1.0:
+                self.edge_stiff[flange].segments[0].t = 0.0
+            """
             corner = list(self.prof.nodes[1].coord)            
-            y_edge = corner[0]+0.5*self.bb_center*self._rho_b
+            y_edge = corner[0]-0.5*self.bb_center*self._rho_b
             z_lip  = corner[1]+self.bb_lip_center*self._rho_b_lip
             nodes = [[y_edge,corner[1]],corner,[corner[0],z_lip]]
             self.edge_stiff[flange] = OpenProf(nodes,self.t)
-    
+            """
+
     def create_free_flange(self,flange='bottom'):
         """ Creates a model for the free flange
             This includes the bottom flange with edge stiffener and
@@ -1393,6 +1473,9 @@ class CSection(ZSection):
         so it inherits the basic functionalities
     """
     
+    # Bottom flange is on the same side of the web as the top flange
+    bottom_side = 1
+    
     def __init__(self,t_nom=2.0,h=120,a=60,b=60,ca=20,cb=20,r=2.0,material="S350GD",t_coat=0.04):
         
         super().__init__(t_nom,h,a,b,ca,cb,r,material,t_coat)
@@ -1573,204 +1656,6 @@ class CSection(ZSection):
         self.prof = OpenProf(nodes,self.t)
         """
     
-    def create_effective_model(self):
-        """ Create calculation model for the effective cross-section 
-            This is done based on the model of the gross cross-section
-        """
-    
-        if self.prof is None:
-            self.create_model()
-                    
-        prof_eff = deepcopy(self.prof)
-                
-        if self._rho_w < 1.0:
-            """ Effective web """            
-            if self._psi_w < 0.0:
-                hc = self.bp_w/(1-self._psi_w)
-                beff = self._rho_w * hc
-                be1 = 0.4*beff
-                be2 = 0.6*beff                
-            elif self._psi_w < 1.0:
-                hc = self.bp_w
-                beff = self._rho_w * hc
-                be1 = 2*beff/(5-self._psi_w)
-                be2 = beff-be1            
-            else:
-                hc = self.bp_w
-                beff = self._rho_w * hc
-                be1 = 0.5*beff
-                be2 = 0.5*beff
-        
-            bneg = hc-beff
-            # Part of the web in tension
-            #ht = self.hw_center-hc
-        
-            if self.cb > 0:
-                nweb = 2
-            else:
-                nweb = 1
-            
-            """
-            s = (be2+ht)/self.hw_center
-            prof_eff.split_segment(nweb,s)
-            s2 = bneg/(be1+bneg)
-            prof_eff.split_segment(nweb+1,s2)
-            prof_eff.segments[nweb+1].t = 0.0
-            """
-            nw_top = self.parts['web']['nodes'][2]
-            nw_bot = self.parts['web']['nodes'][1]
-            
-            print(be1,be2, bneg)
-                    
-            prof_eff.nodes[nw_top].z = prof_eff.nodes[nw_top+1].z + self.rm*np.sin(np.radians(45)) - be1
-            prof_eff.nodes[nw_bot].z = prof_eff.nodes[nw_top].z - bneg
-            
-            prof_eff.segments[nw_bot].t = 0.0
-        
-        if self.ca > 0.0:            
-            """ Edge stiffener is present """
-            # Number of segments in the section
-            
-            ntop = self.parts['top_flange']['nodes'][-2]
-            
-            # Reduce the thickness of edge stiffener, if needed
-            for segment in prof_eff.segments[ntop:]:
-                segment.t *= self._chi_d_t
-            
-            if self._rho_t_lip < 1.0:
-                prof_eff.segments[-1].t = 0.0
-                
-            # If the top flange is not entirely effective,
-            # make the thickness of the non-effective segment zero.
-            if self._rho_t < 1.0:
-                prof_eff.nodes[ntop-1].y = self.gr + 0.5*self._rho_t*self.bp_t
-                prof_eff.segments[ntop-1].t = 0
-            
-                              
-            
-            """
-            nseg = prof_eff.n-1
-            # Move the node of the edge stiffener up
-            prof_eff.nodes[-1].z += (1-self._rho_t_lip)*self.bt_lip_center
-                    
-            # Split the top flange into two parts
-            s = 0.5*self._rho_t            
-            prof_eff.split_segment(nseg-2,s)
-                        
-            #prof_eff.draw(node_labels=True)
-            if self._rho_t < 1.0:
-                s2 = (1-self._rho_t)*self.bt_center/prof_eff.segments[-2].length()
-                prof_eff.split_segment(nseg-1,s2)
-                prof_eff.segments[nseg-1].khp = 0.0
-                
-            prof_eff.segments[-2].t *= self._chi_d_t
-            prof_eff.segments[-1].t *= self._chi_d_t
-            """          
-        else:
-            """ The effective top flange is an outstand element """
-            #prof_eff.nodes[-1].y -= (1-self._rho_t)*self.bp_t
-            if self._rho_t < 1.0:
-                prof_eff.nodes[-2].y = self._rho_t*self.bp_t + self.gr
-                prof_eff.segments[-1].t = 0.0
-
-        
-        if self.cb > 0.0:
-            """ Edge stiffener is present in the bottom flange """
-            
-            nbot = self.parts['bottom_flange']['nodes'][1]
-            
-            # Reduce the thickness of edge stiffener, if needed
-            for segment in prof_eff.segments[:nbot]:
-                segment.t *= self._chi_d_b
-            
-            if self._rho_b_lip < 1.0:
-                prof_eff.segments[0].t = 0.0
-            
-            # If the bottom flange is not entirely effective,
-            # make the thickness of the non-effective segment zero.
-            if self._rho_b < 1.0:
-                prof_eff.nodes[nbot+1].y = self.gr + 0.5*self._rho_b*self.bp_b
-                prof_eff.segments[nbot].t = 0
-            
-            """
-            # Move the node of the edge stiffener down
-            prof_eff.nodes[0].z -= (1-self._rho_b_lip)*self.bb_lip_center
-            
-            # Split the bottom flange into two parts
-            s = 0.5*self._rho_b
-            prof_eff.split_segment(1,s)
-            """            
-            """ If there is a non-effective part of the bottom flange
-                remove that too.
-            """
-            """
-            if self._rho_b < 1.0:
-                s2 = (1-self._rho_b)*self.bb_center/prof_eff.segments[2].length()
-                prof_eff.split_segment(2,s2)
-                prof_eff.segments[2].khp = 0.0
-            prof_eff.segments[0].t *= self._chi_d_b
-            prof_eff.segments[1].t *= self._chi_d_b        
-            """
-        else:
-            
-            """ The effective bottom flange is an outstand element """
-            #prof_eff.nodes[-1].y -= (1-self._rho_t)*self.bp_t
-            if self._rho_b < 1.0:
-                prof_eff.nodes[1].y = self._rho_b*self.bp_b + self.gr
-                prof_eff.segments[0].t = 0.0
-                
-            
-
-        self.prof_eff = prof_eff
-            
-    def create_edge_stiffener(self,flange='top'):
-        """ Creates a model for the edge stiffener of a flange """
-        if flange == 'top':            
-            n1 = self.parts['top_flange']['nodes'][-2]
-            n2 = self.parts['top_lip']['nodes'][-1]
-            nodes = self.prof.nodes[n1:n2+1]
-            
-            nodes[0].y = self.bp_t+self.gr-0.5*self.bp_t*self._rho_t
-            
-            if self._rho_t_lip < 1.0:            
-                nodes[-2].z = nodes[-1].z + (1-self._rho_t_lip)*self.bp_t_lip
-            
-            #corner = list(self.prof.nodes[-2].coord)
-            #y_edge = corner[0]-0.5*self.bt_center*self._rho_t
-            #z_lip  = corner[1]-self.bt_lip_center*self._rho_t_lip
-            #nodes = [[y_edge,corner[1]],corner,[corner[0],z_lip]]
-            self.edge_stiff[flange] = OpenProf(nodes,self.t)
-            if self._rho_t_lip < 1.0:
-                self.edge_stiff[flange].segments[-1].t = 0.0
-            #self.edge_stiff[flange].draw()
-            """
-            self.edge_stiff[flange].draw()
-            corner = list(self.prof.nodes[-2].coord)
-            y_edge = corner[0]-0.5*self.bt_center*self._rho_t
-            z_lip  = corner[1]-self.bt_lip_center*self._rho_t_lip
-            nodes = [[y_edge,corner[1]],corner,[corner[0],z_lip]]
-            self.edge_stiff[flange] = OpenProf(nodes,self.t)
-            """
-        else:
-            n1 = self.parts['bottom_lip']['nodes'][0]
-            n2 = self.parts['bottom_flange']['nodes'][1]            
-            nodes = self.prof.nodes[n1:n2+1]
-            
-            nodes[-1].y = self.bp_b+self.gr-0.5*self.bp_b*self._rho_b
-            
-            if self._rho_b_lip < 1.0:
-                nodes[1].z = nodes[0].z - (1-self._rho_b_lip)*self.bp_b_lip
-            
-            self.edge_stiff[flange] = OpenProf(nodes,self.t)
-            if self._rho_b_lip < 1.0:
-                self.edge_stiff[flange].segments[0].t = 0.0
-            """
-            corner = list(self.prof.nodes[1].coord)            
-            y_edge = corner[0]-0.5*self.bb_center*self._rho_b
-            z_lip  = corner[1]+self.bb_lip_center*self._rho_b_lip
-            nodes = [[y_edge,corner[1]],corner,[corner[0],z_lip]]
-            self.edge_stiff[flange] = OpenProf(nodes,self.t)
-            """
     def draw(self):
         """ Draw the profile 
             
-- 
2.43.0


From bbd68ac0cdd77b933e96a90ceabffacec0ac7fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 161/214] fix: edge distance in the validity of screw joints
 (EN 1993-1-3, Table 8.2)

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index e4de906..393d2f9 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -386,7 +386,7 @@ def RwRd_two_webs(fyb,r,t,phi,hw,ss,verb=False,code='old',**kwargs):
 """ Table 8.2: Design resistances for self-tapping screws """
 def screw_validity(e1,e2,p1,p2,d,t,t1):
     """ Check the conditions on the range of validity """
-    if e1 >= 3*d and e2 >= 1.5 and p1 >= 3*d and p2 >= 3*d and d <= 8.0 and d >= 3.0:
+    if e1 >= 3*d and e2 >= 1.5*d and p1 >= 3*d and p2 >= 3*d and d <= 8.0 and d >= 3.0:
         return True
     else:
         return False
-- 
2.43.0


From 83603ecf6b6d0f57674dd3ab03a10b3935cf371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 162/214] fix: pressure coefficients of monopitch roofs of less
 than 15 degrees (EN 1991-1-4, Table 7.3a)

---
 metku/eurocodes/en1991/en1991_1_4.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index f21cdb4..5f021cd 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -132,15 +132,16 @@ class ExternalPressureMonoRoof:
                 self.H = {'cpe10': interpolate([15,30],[-0.9,-0.8],angle), 'cpe1':interpolate([15,30],[-1.2,-0.8],angle)}
         elif angle >= 5:
             if wind_direction == 0:
-                cneg10 = interpolate([15,30],[-0.9,-0.5],angle)
-                cneg1 = interpolate([15,30],[-2.0,-1.5],angle)
-                cpos = interpolate([15,30],[0.2,0.7],angle)
+                cneg10 = interpolate([5,15],[-1.7,-0.9],angle)
+                cneg1 = interpolate([5,15],[-2.5,-2.0],angle)
+                cpos = interpolate([5,15],[0.0,0.2],angle)
                 self.F = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
-                cneg10 = interpolate([15,30],[-0.8,-0.5],angle)
-                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[-1.5,cpos]} 
-                cpos = interpolate([15,30],[0.2,0.4],angle)
-                cneg = interpolate([15,30],[-0.3,-0.2],angle)
-                self.H = {'cpe10': [cneg,cpos], 'cpe1':[cneg,cpos]} 
+                cneg10 = interpolate([5,15],[-1.2,-0.8],angle)
+                cneg1 = interpolate([5,15],[-2.0,-1.5],angle)
+                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
+                cneg10 = interpolate([5,15],[-0.6,-0.3],angle)
+                cneg1 = interpolate([5,15],[-1.2,-0.3],angle)
+                self.H = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
             elif wind_direction == 180:
                 self.F = {'cpe10': interpolate([5,15],[-2.3,-2.5],angle), 'cpe1':interpolate([5,15],[-2.5,-2.8],angle)} 
                 self.G = {'cpe10': -1.3, 'cpe1':-2.0}
-- 
2.43.0


From 38a0233f5091e20da0895b245d9032b7f072b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 163/214] fix: monopitch roof has no wind pressure and wrong
 zones (EN 1991-1-4, Fig. 7.7)

---
 metku/eurocodes/en1991/en1991_1_4.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index 5f021cd..a5af36d 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -365,6 +365,10 @@ def monopitch_roof_pressure(length,width,h,qp,wind_angle=180,alpha=5):
         zones['I']['width'] = length-0.5*e
             
     
+    if wind_angle != 90:
+        zones['G']['length'] = b-0.5*e
+        zones['H']['width'] = d-0.1*e
+    
     """ Area of the wind """
     A = b*h
     
@@ -380,10 +384,15 @@ def monopitch_roof_pressure(length,width,h,qp,wind_angle=180,alpha=5):
     
     ep = ExternalPressureMonoRoof(wind_angle,alpha)
     
-   
+    if wind_angle != 90:
+        for key in ('F','G','H'):
+            zones[key]['cpe'] = getattr(ep,key)['cpe10']
 
     for key, value in zones.items():
-        value['we'] = qp*value['cpe']
+        if isinstance(value['cpe'],list):
+            value['we'] = [qp*cpe for cpe in value['cpe']]
+        else:
+            value['we'] = qp*value['cpe']
         
     return zones
 
-- 
2.43.0


From d681b5c1a064f3d0a7d0818c62b2004510d1c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 164/214] fix: zones H and I of a flat roof that is short in
 the wind direction

---
 metku/eurocodes/en1991/en1991_1_4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index a5af36d..4a4961b 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -416,8 +416,8 @@ def flat_roof_pressure(d,b,h,qp,hp=0):
     """
     zones = {"F":{"length":0.25*e,'width':0.1*e,'cpe':0.0,'we':0.0},
              "G":{"length":b-0.5*e,'width':0.1*e,'cpe':0.0,'we':0.0},
-             "H":{"length":b,'width':0.4*e,'cpe':0.0,'we':0.0},
-             "I":{"length":b,'width':d-0.5*e,'cpe':0.0,'we':0.0}
+             "H":{"length":b,'width':min(0.4*e,d-0.1*e),'cpe':0.0,'we':0.0},
+             "I":{"length":b,'width':max(d-0.5*e,0.0),'cpe':0.0,'we':0.0}
              }
     
     hd_ratio = h/d
-- 
2.43.0


From 78b34d04e1f71af04b230e460387746244a5ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 165/214] fix: no wind pressure on walls of at most 10 m2 (EN
 1991-1-4, Fig. 7.2)

---
 metku/eurocodes/en1991/en1991_1_4.py | 64 ++++++++++++++++------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index 4a4961b..40013d7 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -29,6 +29,12 @@ def interpolate(X,Y,x0):
     
     return Y[0] + (Y[1]-Y[0])/(X[1]-X[0])*(x0-X[0])
 
+def pressure_coefficient(cpe,A):
+    """ External pressure coefficient for loaded area A (m2)
+        EN 1991-1-4, Figure 7.2
+    """
+    return cpe["cpe1"] - (cpe["cpe1"]-cpe["cpe10"])*math.log10(min(max(A,1.0),10.0))
+
 terrain_category = {0: {"z0":0.003, "zmin":1.0},
                     1: {"z0":0.01, "zmin":1.0},
                     2: {"z0":0.05, "zmin":2.0},
@@ -282,35 +288,37 @@ def rect_building_wall_pressure(length,width,h,qp,wind_dir="long"):
     print("e = {0:4.2f} m".format(e))
     print("h/d = {0:4.2f} ".format(hd_ratio))
     
-    if A > 10:
-        zones["A"]['cpe'] = ext_pressure_walls["A"][5]["cpe10"]
-        zones["B"]['cpe'] = ext_pressure_walls["B"][5]["cpe10"]
-        zones["C"]['cpe'] = ext_pressure_walls["C"][5]["cpe10"]
+    cpe = {zone: {ratio: pressure_coefficient(value,A) for ratio, value in values.items()}
+           for zone, values in ext_pressure_walls.items()}
+    
+    zones["A"]['cpe'] = cpe["A"][5]
+    zones["B"]['cpe'] = cpe["B"][5]
+    zones["C"]['cpe'] = cpe["C"][5]
 
-        if hd_ratio >= 5:
-            zones["D"]['cpe'] = ext_pressure_walls["D"][5]["cpe10"]
-            zones["E"]['cpe'] = ext_pressure_walls["E"][5]["cpe10"]
-        elif hd_ratio >= 1:
-            """ Linear interpolation for E """
-            zones["D"]['cpe'] = ext_pressure_walls["D"][1]["cpe10"]
-            Y = [ext_pressure_walls["E"][1]["cpe10"],
-                 ext_pressure_walls["E"][5]["cpe10"]]
-            X = [1,5]            
-            zones["E"]['cpe'] = interpolate(X,Y,hd_ratio)
-        elif hd_ratio >= 0.25:
-            """ Linear interpolation for D and E """            
-            X = [0.25,1]                        
-            YD = [ext_pressure_walls["D"][0.25]["cpe10"],
-                 ext_pressure_walls["D"][1]["cpe10"]]            
-            YE = [ext_pressure_walls["E"][0.25]["cpe10"],
-                 ext_pressure_walls["E"][1]["cpe10"]]            
-            zones["D"]['cpe'] = interpolate(X,YD,hd_ratio)
-            zones["E"]['cpe'] = interpolate(X,YE,hd_ratio)
-            
-            #zones["E"]['cpe'] = ext_pressure_walls["E"][1]["cpe10"]
-        else:
-            zones["D"]['cpe'] = ext_pressure_walls["D"][0.25]["cpe10"]
-            zones["E"]['cpe'] = ext_pressure_walls["E"][0.25]["cpe10"]
+    if hd_ratio >= 5:
+        zones["D"]['cpe'] = cpe["D"][5]
+        zones["E"]['cpe'] = cpe["E"][5]
+    elif hd_ratio >= 1:
+        """ Linear interpolation for E """
+        zones["D"]['cpe'] = cpe["D"][1]
+        Y = [cpe["E"][1],
+             cpe["E"][5]]
+        X = [1,5]            
+        zones["E"]['cpe'] = interpolate(X,Y,hd_ratio)
+    elif hd_ratio >= 0.25:
+        """ Linear interpolation for D and E """            
+        X = [0.25,1]                        
+        YD = [cpe["D"][0.25],
+             cpe["D"][1]]            
+        YE = [cpe["E"][0.25],
+             cpe["E"][1]]            
+        zones["D"]['cpe'] = interpolate(X,YD,hd_ratio)
+        zones["E"]['cpe'] = interpolate(X,YE,hd_ratio)
+        
+        #zones["E"]['cpe'] = cpe["E"][1]
+    else:
+        zones["D"]['cpe'] = cpe["D"][0.25]
+        zones["E"]['cpe'] = cpe["E"][0.25]
 
     for key, value in zones.items():
         value['we'] = qp*value['cpe']
-- 
2.43.0


From 15286296dbcdf5be9322e95052aaf752ebd0be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 166/214] fix: resistance of a shear stud cannot be evaluated

---
 metku/eurocodes/en1994/en1994_1_1.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/eurocodes/en1994/en1994_1_1.py b/metku/eurocodes/en1994/en1994_1_1.py
index 2f11218..dab6cf5 100644
--- a/metku/eurocodes/en1994/en1994_1_1.py
+++ b/metku/eurocodes/en1994/en1994_1_1.py
@@ -15,6 +15,7 @@ import math
 
 try:
     from metku.eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
+    from metku.eurocodes.en1994.constants import gammaV
 except:
     from eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
     from eurocodes.en1994.constants import gammaV
-- 
2.43.0


From 10b3748630da8e2d6669d34e6cc671d2d37c9588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 167/214] fix: shear resistance of the shank of a stud (EN
 1994-1-1, Eq. 6.18)

---
 metku/eurocodes/en1994/en1994_1_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1994/en1994_1_1.py b/metku/eurocodes/en1994/en1994_1_1.py
index dab6cf5..7ed78b0 100644
--- a/metku/eurocodes/en1994/en1994_1_1.py
+++ b/metku/eurocodes/en1994/en1994_1_1.py
@@ -43,7 +43,7 @@ class ShearStud:
     def PRd(self,fck,Ecm,verb=False):
         """ Shear force resistance of a stud """
         
-        PRd_steel = 0.8*self.fu*math.pi**2*self.d**2/4
+        PRd_steel = 0.8*self.fu*math.pi*self.d**2/4/gammaV
         
         if self.length/self.d > 4:
             alpha = 1.0
-- 
2.43.0


From 2edc88795619ac6bafa34b32a4d12b41c26a12e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 168/214] fix: second moment of area of the concrete in a tube
 with rounded corners

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 962c28e..9c138d9 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -264,7 +264,7 @@ class ConcreteFilledTube:
         
         Icy = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
                 +r**4*(9*math.pi**2-64)/36/math.pi + \
-                +math.pi*r**2*(0.5*h-t+4*r/3/math.pi)**2 - self.Is
+                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - self.Is
         
         return Icy
     
-- 
2.43.0


From 4f1dd2cd847416c6ee0cf76e0d2cbe41191459b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 169/214] fix: horizontal cover of the rebars in a concrete
 filled tube

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 9c138d9..2b262d6 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -143,7 +143,7 @@ class ConcreteFilledTube:
         """ Distance in y-direction (horizontal) of the rebar edge from
             inner surface of the steel profile
         """
-        return 0.5*self.steel.B - self.steel.T - self.rebar_pos[0] + self.rebar.r
+        return 0.5*self.steel.B - self.steel.T - (self.rebar_pos[0] + self.rebar.r)
         
     @v.setter
     def v(self,v):
-- 
2.43.0


From f5ac4984b9b1ac8f139e5ce4ffe4194f8025f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 170/214] fix: buckling of a concrete filled tube about its
 minor axis cannot be evaluated

---
 metku/sections/composite/composite_column.py | 32 +++++++++++++++-----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 2b262d6..d746484 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -207,6 +207,11 @@ class ConcreteFilledTube:
         
         return Is1
     
+    @property
+    def Isz(self):
+        """ Second moment of area of reinforcement with respect to minor axis """
+        return self.nbars*(self.rebar.I + self.rebar.A*self.y_rebar**2)
+    
     @property
     def Wps(self):
         """ Bending resistance of reinforcement """
@@ -256,15 +261,24 @@ class ConcreteFilledTube:
         """ Second moment of area of concrete part with respect to
             major axis at the centroid
         """
-        b = self.steel.B
-        h = self.steel.H
+        return self._concrete_second_moment(self.steel.B,self.steel.H,self.Is)
+    
+    @property
+    def Icz(self):
+        """ Second moment of area of concrete part with respect to
+            minor axis at the centroid
+        """
+        return self._concrete_second_moment(self.steel.H,self.steel.B,self.Isz)
+    
+    def _concrete_second_moment(self,b,h,Is):
+        """ Second moment of area of concrete in a tube of width b and height h """
         t = self.steel.T
         # Inner radius
         r = self.steel.R-t
         
         Icy = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
                 +r**4*(9*math.pi**2-64)/36/math.pi + \
-                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - self.Is
+                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - Is
         
         return Icy
     
@@ -303,9 +317,11 @@ class ConcreteFilledTube:
         Ke = 0.6
         
         if axis == "y":
-            Ic = self.Ic
+            Ic, EIa, EIs = self.Ic, self.EIa, self.EIs
+        else:
+            Ic, EIa, EIs = self.Icz, self.Ea*self.steel.I[1], self.rebar.E*self.Isz
     
-        return self.EIa + self.EIs + Ke*self.Eceff*Ic
+        return EIa + EIs + Ke*self.Eceff*Ic
     
     
     def EIeffII(self,axis="y"):
@@ -316,9 +332,11 @@ class ConcreteFilledTube:
         Ke = 0.5
         
         if axis == "y":
-            Ic = self.Ic
+            Ic, EIa, EIs = self.Ic, self.EIa, self.EIs
+        else:
+            Ic, EIa, EIs = self.Icz, self.Ea*self.steel.I[1], self.rebar.E*self.Isz
     
-        return Ko*(self.EIa + self.EIs + Ke*self.Eceff*Ic)
+        return Ko*(EIa + EIs + Ke*self.Eceff*Ic)
     
     def e0(self):
         """ Member imperfection 
-- 
2.43.0


From 9278f90ef6df34d386e39822e2d632feee263988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 171/214] fix: plastic neutral axis in the steel part of a
 composite beam (flange and web swapped)

---
 metku/sections/composite/composite_beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index cedc960..534bebb 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -363,7 +363,7 @@ class CompositeIBeam:
         
         if Ra < Rc:
             ec0 = Ra/Rc*hc
-        elif Rc < Ra-2*self.Rf():
+        elif Rc >= Ra-2*self.Rf():
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
         else:
@@ -395,7 +395,7 @@ class CompositeIBeam:
                 print("Ra = {0:4.2f} kN".format(Ra*1e-3))
                 print("Rc = {0:4.2f} kN".format(Rc*1e-3))
                 print("ec0 = {0:4.2f} [mm]".format(ec0))
-        elif Rc < Ra-2*self.Rf():
+        elif Rc >= Ra-2*self.Rf():
             """ Neutral axis in top flange of steel beam """
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
-- 
2.43.0


From e7b69df5db04810ec00a9e0b86800934129df117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 172/214] fix: concrete strength of a composite beam is reduced
 twice (EN 1994-1-1, 2.4.1.2)

---
 metku/sections/composite/composite_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index 534bebb..37534bd 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -336,7 +336,7 @@ class CompositeIBeam:
     def Rc(self):
         """ Full resultant of concrete part """
         
-        return 0.85*self.slab.material.fcd()*self.Ac
+        return 0.85*self.slab.material.fcd(a_cc=1.0)*self.Ac
     
     def Rf(self):
         """ Resultant of top flange of the steel beam """
-- 
2.43.0


From 75286a74d77c0947e608434b23b7e82fa9369755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 173/214] fix: composite beam with a welded section

---
 metku/sections/composite/composite_beam.py | 25 ++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index 37534bd..b9a620d 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -188,8 +188,21 @@ class CompositeIBeam:
         """ Distance of centroid of steel part from the top
             of the composite section
         """
+        if hasattr(self.steel,"elastic_neutral_axis"):
+            return self.slab.h + self.steel.h - self.steel.elastic_neutral_axis()
+        
         return self.slab.h + 0.5*self.steel.h
     
+    @property
+    def tf(self):
+        """ Thickness of the top flange of steel part """
+        return np.atleast_1d(self.steel.tf)[0]
+    
+    @property
+    def bf(self):
+        """ Width of the top flange of steel part """
+        return np.atleast_1d(self.steel.b)[0]
+    
     @property
     def Aa(self):
         """ Area of steel part """
@@ -341,7 +354,7 @@ class CompositeIBeam:
     def Rf(self):
         """ Resultant of top flange of the steel beam """
         
-        Af = self.steel.tf * self.steel.b        
+        Af = self.tf * self.bf        
         
         return self.steel.fy*Af
     
@@ -365,13 +378,13 @@ class CompositeIBeam:
             ec0 = Ra/Rc*hc
         elif Rc >= Ra-2*self.Rf():
             hl = self.slab.h
-            ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
+            ec0 = 0.5*(Ra-Rc)/self.bf/self.steel.fy + self.slab.h
         else:
             Rf = self.Rf()
             Rw = self.Rw()
             hw = self.steel.hw
             hl = self.slab.h
-            tf = self.steel.tf
+            tf = self.tf
             
             ec0 = 0.5*(Ra-Rc-2*Rf)/Rw*hw+hl+tf
             
@@ -398,15 +411,15 @@ class CompositeIBeam:
         elif Rc >= Ra-2*self.Rf():
             """ Neutral axis in top flange of steel beam """
             hl = self.slab.h
-            ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
-            MplRd = Ra*(ei-hl+0.5*hc) + Rc*(hl-0.5*hc) - 0.25*(Ra-Rc)**2/self.Rf()*self.steel.tf
+            ec0 = 0.5*(Ra-Rc)/self.bf/self.steel.fy + self.slab.h
+            MplRd = Ra*(ei-hl+0.5*hc) + Rc*(hl-0.5*hc) - 0.25*(Ra-Rc)**2/self.Rf()*self.tf
         else:
             """ Neutral axis in the web of the steel part """
             Rf = self.Rf()
             Rw = self.Rw()
             hw = self.steel.hw
             hl = self.slab.h
-            tf = self.steel.tf
+            tf = self.tf
             
             ec0 = 0.5*(Ra-Rc-2*Rf)/Rw*hw+hl+tf
             
-- 
2.43.0


From 8d91ee3caca2f88222925190e0ddce70b486c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 174/214] fix: charring depth jumps at the failure time of the
 protection (EN 1995-1-2, 3.4.3.2)

---
 metku/eurocodes/en1995/en1995_1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 31d2e42..387a9b7 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -93,7 +93,7 @@ def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-        elif fp.t_f < t < fp.t_a:
+        elif t < fp.t_a:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (t - fp.t_f) * 2 * beta_n + k0 * d0
         else:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (fp.t_a - fp.t_f) * 2 * beta_n + (t - fp.t_a) * beta_n + k0 * d0
-- 
2.43.0


From f5f8c0070d5b48ca97a6945b0f39f30d1729604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 175/214] fix: zero-strength layer behind a protection before
 the start of charring (EN 1995-1-2, 4.2.2)

---
 metku/eurocodes/en1995/en1995_1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 387a9b7..5319904 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -89,7 +89,7 @@ def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
         return t * beta_n + k0 * d0
     # RIL-205-2-2009 kuvat 3.3 - 3.5
     if t < fp.t_ch:
-        return 0
+        return k0 * d0
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-- 
2.43.0


From e0e3e0e528ce5ecec1a10e883669290fb9a3b3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 176/214] fix: fire protection given after the section was made
 has no failure time

---
 metku/sections/timber/timber_section.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index 1cd68a1..08e40b9 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -98,6 +98,9 @@ class TimberSection:
             self.__material.direction = self.lvldir
         self.set_beta_0_and_n()
 
+        self.set_fire_protections()
+
+    def set_fire_protections(self):
         # RIL-205-2-2009 3.4.3
         # Asetetaan palosuojille millainen materiaali suojataan jotta voidaan laskea ta ja tf
         if self.fire_protection_right:
@@ -231,6 +234,7 @@ class TimberSection:
             self.fire_protection_left = val
             self.fire_protection_bottom = val
             self.fire_protection_top = val
+        self.set_fire_protections()
 
     def get_R(self) -> (int, float):
         return self.R
-- 
2.43.0


From 01d543f2a5887a0c883fb86b14b7a3b871353323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 177/214] fix: elements of a tapered timber section keep their
 size when the width or fire changes

---
 metku/sections/timber/timber_section.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index 08e40b9..812847c 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -156,6 +156,19 @@ class TimberSection:
     @B.setter
     def B(self, val: (int, float)):
         self._B = val
+        self.update_elements()
+
+    @property
+    def R(self) -> (int, float):
+        return self._R
+
+    @R.setter
+    def R(self, val: (int, float)):
+        self._R = val
+        self.update_elements()
+
+    def update_elements(self):
+        pass
 
     @property
     def I(self) -> np.ndarray:
@@ -235,6 +248,7 @@ class TimberSection:
             self.fire_protection_bottom = val
             self.fire_protection_top = val
         self.set_fire_protections()
+        self.update_elements()
 
     def get_R(self) -> (int, float):
         return self.R
@@ -251,11 +265,11 @@ class TaperedSection(TimberSection, ABC):
                  fire_protection_right: FireProtection = None, fire_protection_left: FireProtection = None,
                  fire_protection_top: FireProtection = None, fire_protection_bottom: FireProtection = None,
                  fire_protection_generic: FireProtection = None, fire_protection_sides=3, sides_on_fire=3, lvldir='edge'):
+        self.small_elements = []
+        self.num_elements = -1
         super().__init__(B, H, material, fire_protection_right, fire_protection_left,
                          fire_protection_top, fire_protection_bottom, fire_protection_generic, fire_protection_sides,
                          sides_on_fire, lvldir)
-        self.small_elements = []
-        self.num_elements = -1
 
     def create_elements(self):
         # TODO ei laske oiken jos nodet ei ole tasavälein
-- 
2.43.0


From 6f930470ec5d04dde39fe308d2458f55e2801263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 178/214] fix: torsion constant of timber sections

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 45daaef..28c55d6 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -687,7 +687,7 @@ class TimberMember:
         elif 9 < ratio < np.inf:
             alpha = 0.333
         else:
-            alpha = -0.0022 * ratio ** 2 + 0.425 * ratio + 0.1116
+            alpha = 1 / 3 - 0.21 / ratio * (1 - 1 / (12 * ratio ** 4))
 
         return alpha * self.section.get_H(loc) * self.section.B ** 3
 
-- 
2.43.0


From 14ea1c11f883f9f6085b4dafb44b608915891477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 179/214] fix: torsion of timber sections that are wider than
 high

---
 metku/structures/timber/timber_member.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 28c55d6..ecc22af 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -656,7 +656,8 @@ class TimberMember:
             beta = 0.333
         else:
             beta = -0.0007 * section_height_to_width_ratio ** 2 + 0.0193 * section_height_to_width_ratio + 0.1923
-        Wv = beta * self.section.get_H(self.loc[n]) * self.section.B ** 2
+        h, b = self.section.get_H(self.loc[n]), self.section.B
+        Wv = beta * max(h, b) * min(h, b) ** 2
         return self.ted[n] / Wv
 
     def I_tor(self, loc: float) -> float:
@@ -689,14 +690,16 @@ class TimberMember:
         else:
             alpha = 1 / 3 - 0.21 / ratio * (1 - 1 / (12 * ratio ** 4))
 
-        return alpha * self.section.get_H(loc) * self.section.B ** 3
+        h, b = self.section.get_H(loc), self.section.B
+        return alpha * max(h, b) * min(h, b) ** 3
 
     def k_shape(self, n: int) -> float:
         """
         SFS EN 1995-1-1 §6.1.8(6.15)
         @return: cross section factor for rectangular cross sections (circular sections not included)
         """
-        return min(1.3, 1 + 0.05 * self.section.get_H(self.loc[n]) / self.section.B)
+        h, b = self.section.get_H(self.loc[n]), self.section.B
+        return min(1.3, 1 + 0.05 * max(h, b) / min(h, b))
 
     def beta_c(self) -> float:
         """
-- 
2.43.0


From 742c43a46da74d9011a562d851cafa2cff80737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 180/214] fix: negative torsional moment of a timber member is
 not verified

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index ecc22af..cefb3c9 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1118,7 +1118,7 @@ class TimberMember:
 
     def check_torsion(self, n: int) -> float:
         # Torsion utilization ratio:                                SFS-EN 1995-1-1 § 6.1.8
-        UTx = self.tau_tord(n) / (self.k_shape(n) * self.fvd)
+        UTx = abs(self.tau_tord(n)) / (self.k_shape(n) * self.fvd)
         r = UTx
         return r
 
-- 
2.43.0


From 14113363123913378d755a5fbfa4904d421a8f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 181/214] fix: bending about two axes with moments of opposite
 signs (EN 1995-1-1, 6.1.6, 6.2.3, 6.2.4, 6.3.2)

---
 metku/structures/timber/timber_member.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index cefb3c9..bdf19d3 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1111,8 +1111,8 @@ class TimberMember:
 
     def check_bending_moment(self, n: int) -> float:
         # Bending moment utilization ratio:                         SFS-EN 1995-1-1 § 6.1.6
-        UM1 = abs(self.sigma_md(n)[0] / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd)
-        UM2 = abs(self.sigma_md(n)[1] / self.fmd + k_m * self.sigma_md(n)[0] / self.fmd)
+        UM1 = abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = abs(self.sigma_md(n)[1]) / self.fmd + k_m * abs(self.sigma_md(n)[0]) / self.fmd
         r = max(UM1, UM2)
         return r
 
@@ -1125,16 +1125,16 @@ class TimberMember:
     def check_bending_tension(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.3
         # TODO z-suuntainen taivutusjännitys tarkistettava merkkien osalta (deplanaatiota ei ole otettu huomioon)
-        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
     def check_bending_compression(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.4
         # TODO katso ylemää
-        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
@@ -1177,8 +1177,8 @@ class TimberMember:
         mz0 = np.array(sigma_mzd_list[0])
         mz1 = np.array(sigma_mzd_list[1])
 
-        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * mz0 / self.fmd),
-              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + mz1 / self.fmd)]
+        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * abs(mz0) / self.fmd),
+              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + abs(mz1) / self.fmd)]
         UB_fixed = [UB[0] * (sc0 < 0), UB[1] * (sc1 < 0)]
 
         return [max(UB_fixed[0]), max(UB_fixed[1])]
-- 
2.43.0


From 0533020c977cf53c04ac108bbf50b16fb01a7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 182/214] fix: lateral-torsional buckling under negative
 bending moments (EN 1995-1-1, 6.3.3)

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index bdf19d3..3f05f81 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1194,7 +1194,7 @@ class TimberMember:
             for loc in self.loc:
                 if supp[i] <= loc <= supp[i + 1]:
                     if max(self.myed, key=abs) != 0 and abs(max(self.ned, key=abs)) <= 0.1:
-                        ULT_list.append({'r': self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
+                        ULT_list.append({'r': abs(self.sigma_md(self.loc.index(loc))[0]) / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
                     else:
                         ULT_list.append({
                             'r': ((self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd)) ** 2) +
-- 
2.43.0


From b6223cdf5cf48e2090141c9c25ef25ebc164377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 183/214] fix: buckling length factors of a timber member are
 those of its first evaluation

---
 metku/structures/timber/timber_member.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 3f05f81..3b3dd3f 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -83,6 +83,7 @@ class TimberMember:
         self.Sj1 = Sj1
         self.Sj2 = Sj2
         self.beta = beta
+        self.calculated_beta = None
         self.perm_k_vol = k_vol
 
         self.ned = []
@@ -841,7 +842,7 @@ class TimberMember:
                         else:
                             beta[index].append(1)
 
-        if self.beta is not None:
+        if self.beta is not None and self.beta is not self.calculated_beta:
             if isinstance(self.beta, (int, float)):
                 return np.asarray([self.beta * self.L_c[0], self.beta * self.L_c[1]], dtype=object)
             elif isinstance(self.beta, list):
@@ -849,12 +850,12 @@ class TimberMember:
         if self.type == 'column':
             form_beta(self.L_c[0], 0)
             form_beta(self.L_c[1], 1)
-            self.beta = beta
+            self.beta = self.calculated_beta = beta
             return np.asarray([beta[0] * self.L_c[0], beta[1] * self.L_c[1]], dtype=object)
         elif self.type in ('rigid-beam', 'beam'):
             form_beta(self.L_c[0], 0, True)
             form_beta(self.L_c[1], 1, True)
-            self.beta = beta
+            self.beta = self.calculated_beta = beta
             return np.asarray([beta[0] * self.L_c[0], beta[1] * self.L_c[1]], dtype=object)
 
         if self.Sj1 >= 1e15 and self.Sj2 >= 1e15:
-- 
2.43.0


From 3cb2552517143a47d9af5cf6b391e7d54738c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 184/214] fix: bending stress at the apex of a pitched cambered
 beam (EN 1995-1-1, Eq. 6.45)

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 3b3dd3f..6edb412 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -439,7 +439,7 @@ class TimberMember:
             return 1 + 0.35 * (self.section.hap / r) + 0.6 * (self.section.hap / r) ** 2
         elif isinstance(self.section, KaarevaHarjaPalkki):
             r = self.section.r_in + 0.5 * self.section.hap
-            k2 = 0.35 * - 8 * np.tan(self.alfa())
+            k2 = 0.35 - 8 * np.tan(self.alfa())
             k3 = 0.6 + 8.3 * np.tan(self.alfa()) - 7.8 * np.tan(self.alfa()) ** 2
             k4 = 6 * np.tan(self.alfa()) ** 2
             return k1 + k2 * (self.section.hap / r) + k3 * (
-- 
2.43.0


From b54cbc69f64755b6c2fd09da17befa57ebecb94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 185/214] fix: strength reduction of bent laminations (EN
 1995-1-1, Eq. 6.49)

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 6edb412..52b5c3a 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -345,10 +345,10 @@ class TimberMember:
         if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
             return 1
         elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
-            if self.section.r_in * 1000 / self.section.t >= 240:
+            if self.section.r_in / self.section.t >= 240:
                 return 1
             else:
-                return 0.76 + 0.001 * (self.section.r_in * 1000 / self.section.t)
+                return 0.76 + 0.001 * (self.section.r_in / self.section.t)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From cdbb246ac821cffa998d9820037e7cd2ee46cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 186/214] fix: volume factor of solid timber (EN 1995-1-1, Eq.
 6.51)

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 52b5c3a..7d4943f 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -400,7 +400,7 @@ class TimberMember:
         # SFS 1995-1-1 (6.51)
         if self.perm_k_vol is not None:
             return self.perm_k_vol
-        if self.material.type == 'solid timber':
+        if self.material.type == 'solid_timber':
             return 1.0
         v = self.V()
         if v > (2 / 3) * self.V_tot():
-- 
2.43.0


From 70b16dbf58c13590506275393bc6536dc8f737fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 187/214] fix: tapered edge in tension uses the compressive
 strength across the grain (EN 1995-1-1, Eq. 6.39)

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 7d4943f..f975f26 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -451,14 +451,14 @@ class TimberMember:
         if not self.section.flipped:
             if sigma_malphad >= 0:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.ft90d, 2), -1 / 2)
             else:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
                                np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
         else:
             if sigma_malphad <= 0:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.ft90d, 2), -1 / 2)
             else:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
                                np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
-- 
2.43.0


From 24386577c2de0f4d078d26a4f1e9732b8c17582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 188/214] fix: linear_buckling finds load factors below one

---
 metku/framefem/framefem.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 2f2d3f0..b8fa385 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -7,12 +7,12 @@ import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 import numpy as np
 import scipy as sp
+import scipy.linalg
 import time
 from copy import deepcopy
 
 
 from abc import ABCMeta, abstractclassmethod
-from scipy.sparse.linalg import eigsh
 
 
 class FrameFEM:
@@ -874,10 +874,13 @@ class FrameFEM:
         KG = np.delete(KG,self.supp_dofs,1) 
         
         
-        # v0 -- initial guess is set to np.ones -matrix,
-        # this makes sure that w and v values doesn't change
-        # after consecutive runs, default v0 is matrix with random values
-        (w, buckling_modes) = eigsh(K, k=k, M=-KG, sigma=1.0, which='LA', mode='buckling')
+        # Buckling: (K + w*KG)v = 0, i.e. -KG*v = (1/w)*K*v, where K is
+        # positive definite. The k smallest positive load factors, also
+        # those below 1.0, correspond to the largest values 1/w.
+        mu, modes = sp.linalg.eigh(-KG, K)
+        pos = mu > 1e-12 * np.max(np.abs(mu))
+        w = 1 / mu[pos][::-1][:k]
+        buckling_modes = modes[:, pos][:, ::-1][:, :k]
         #w = sp.linalg.eigvals(K,b=-KG)
         #(w,buckling_modes) = sp.linalg.eig(K,b=-KG)
         #(w,buckling_modes) = sp.sparse.linalg.eigs(K,k=6,M=-KG,which='SM',sigma=0)
-- 
2.43.0


From 00d6401aaf66d0da3898d7834fb3f2d4a4512ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 189/214] fix: buckling modes of nodes have one value for each
 degree of freedom in every analysis

---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index b8fa385..8af7acb 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -908,7 +908,7 @@ class FrameFEM:
         """
         
         for node in self.nodes:
-            node.v = np.zeros((buckling_modes.shape[1],len(node.v)))
+            node.v = np.zeros((buckling_modes.shape[1],len(node.dofs)))
         
         
         glob_dofs = self.global_free_dofs()
-- 
2.43.0


From ec4679929c78ede24a4a16261b6083a4f096ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 190/214] fix: geometric stiffness matrix of rods and springs,
 displacements of springs

---
 metku/framefem/elements/rod.py     | 5 +++--
 metku/framefem/elements/springs.py | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/metku/framefem/elements/rod.py b/metku/framefem/elements/rod.py
index 91b65ad..6e6caa1 100644
--- a/metku/framefem/elements/rod.py
+++ b/metku/framefem/elements/rod.py
@@ -96,7 +96,7 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -112,7 +112,8 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0],
+                      [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index d0f6222..d0cd019 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -36,7 +36,7 @@ class LinearSpring(Element):
         # Dimension of the element
         self.dim = len(n1.coord)
 
-    def transformation_matrix(self):
+    def transformation_matrix(self,initial=True):
         """ From local to global coordinates """
         c = self.direction_cosines()
         L1 = np.hstack((c, np.zeros(len(c))))
@@ -94,7 +94,7 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -110,7 +110,8 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0],
+                      [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
@@ -132,7 +133,7 @@ class LinearSpring(Element):
         self.fint[lcase]['fx'][1] = self.fint[lcase]['fx'][0]
 
 
-    def nodal_displacements(self,lcase=0):
+    def nodal_displacements(self,lcase=0,order=1):
         """ Get nodal displacements of an element
             Requires previously performed structural analysis such
             that nodal displacements are available.
-- 
2.43.0


From 2fc79c2f2fa954581f1ccf7692ef0a4516d66d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 191/214] fix: geometric stiffness of beams takes hinges into
 account

---
 metku/framefem/elements/ebbeam.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 23824b1..ee53ef3 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -216,6 +216,20 @@ class EBBeam(Element):
         q = [1, 2, 4, 5]
         kg0[np.ix_(q, q)] = keg0
 
+        if len(self.releases) > 0:
+            ''' There are releases in the element, so the displacements of
+                the released dofs follow from the other displacements,
+                like in the (condensed) stiffness matrix.
+            '''
+            rel = self.releases
+            nrel = np.setdiff1d(np.arange(6),rel)
+            self.local_stiffness_matrix(self.material.young, self.section.A,
+                                        self.section.I[0], Le)
+            C = np.eye(6)
+            C[rel,:] = 0
+            C[np.ix_(rel,nrel)] = -np.linalg.inv(self.Krel['K22']).dot(self.Krel['K21'])
+            kg0 = C.transpose().dot(kg0.dot(C))
+
         return kg0
 
     def geometric_stiffness_matrix(self,lcase=0,initial=True):
-- 
2.43.0


From a438102f97887c9d0891f80098235c9770de51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 192/214] fix: second order nodal loads in local coordinates,
 stiffness of the analysed element

---
 metku/framefem/elements/ebbeam.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index ee53ef3..ac1b4ea 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -412,16 +412,16 @@ class EBBeam(Element):
                             floc[2] = L**2*(1/20*q1+1/30*q2)
                             floc[5] = -L**2*(1/30*q1+1/20*q2)
                         else:
-                            k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                            k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                             a = 0.5*L
                             lam = k*a
-                            s = np.sin(k*L)
-                            c = np.cos(k*L)
+                            s = np.sin(lam)
+                            c = np.cos(lam)
                             
                             floc[1] = 0.5*q1*L
                             floc[4] = 0.5*q1*L                    
-                            floc[2] = q1*a**2*(lam*c-s)/lam**2/s
-                            floc[5] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[2] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[5] = q1*a**2*(lam*c-s)/lam**2/s
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
@@ -469,7 +469,7 @@ class EBBeam(Element):
                         floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
                         floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                     else:
-                        k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                        k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                         a = 0.5*L
                         lam = k*a
                         s = np.sin(lam)
@@ -477,11 +477,6 @@ class EBBeam(Element):
                         
                         qy1 = q1*qloc[1]
                         qy2 = q2*qloc[1]
-                        print(f'lambda = {lam:4.3f}')
-                        print(f's = {s:4.3f}')
-                        print(f'c = {c:4.3f}')
-                        #print(k,lam,s,c,(lam*c-s)/lam**2/s)
-                        #print()
                         floc[1] = 0.5*qy1*L
                         floc[4] = 0.5*qy1*L                    
                         floc[2] = -qy1*a**2*(lam*c-s)/lam**2/s
-- 
2.43.0


From 924ad8a88964be29709e0763728f434d8c78e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 193/214] fix: semi-rigid beam elements work with the current
 frame analysis, their loads and stiffness follow the joints

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 188 +++---------------
 1 file changed, 26 insertions(+), 162 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 288d6a8..fdacb83 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -11,14 +11,8 @@ Euler-Bernoulli beam in 2D with rotational stiffness at nodes
 """
 
 import numpy as np
-from functools import lru_cache
 
-CACHE_BOUND = 2**10
 from .ebbeam import EBBeam
-try:
-    from metku.framefem import LineLoad
-except:
-    from framefem import LineLoad
 
 # Constants
 kRigid = 1e20  # articifial large stiffness for rigid joints
@@ -63,25 +57,7 @@ class EBSemiRigidBeam(EBBeam):
 
         self.bending_moment = [0.0, 0.0]
         self.shear_force = [0.0, 0.0]
-        for i in range(2):
-            if rot_stiff[i] <= kHinge:
-                rot_stiff[i] = kHinge
-            elif rot_stiff[i] >= kRigid:
-                rot_stiff[i] = kRigid
-
-        # print(rot_stiff)
-        self.rot_stiff = rot_stiff
-
-    def transformation_matrix(self):
-        """ From local to global coordinates """
-        c = self.direction_cosines()
-        L = np.zeros((6, 6))
-        L[0, 0:2] = c[0:2]
-        L[1, 0] = -L[0, 1]
-        L[1, 1] = L[0, 0]
-        L[2, 2] = 1.0
-        L[3:6, 3:6] = L[0:3, 0:3]
-        return L
+        self.rot_stiff = [min(max(k, kHinge), kRigid) for k in rot_stiff]
 
     def gamma(self):
         """ Eq. (12) of Jalkanen (2004) """
@@ -122,12 +98,6 @@ class EBSemiRigidBeam(EBBeam):
 
         return S
 
-    def global_dofs(self):
-        """ Get numbering of element global degrees of freedom """
-        return np.append(self.nodes[0].dofs, self.nodes[1].dofs)
-        #return self.nodes[0].dofs + self.nodes[1].dofs
-
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Stiffness matrix in local coordinates """
 
@@ -176,147 +146,41 @@ class EBSemiRigidBeam(EBBeam):
 
         return k0
 
-    def stiffness_matrix(self):
-        """ Compute the stiffness matrix """
-
-        E = self.material.young
-        A = self.section.A
-        I1 = self.section.I[0]
-        Le = self.length()
-        k0 = self.local_stiffness_matrix(E, A, I1, Le)
-
-        # k0 = CheckReleases[fem.elem[N],k0];
-
-        # local-global matrix
-        L = self.transformation_matrix()
-
-        # globaali elementin matriisi
-        ke = L.transpose().dot(k0.dot(L))
-
-        return ke
-
-    def local_geometric_stiffness_matrix(self,lcase=0):
+    def local_geometric_stiffness_matrix(self, lcase=0, initial=True):
         """ Geometric stiffness matrix in local coordinates
-            From: Cook et. al 1989, Section 14.2
-        """
-        #P = self.axial_force[1]
-        P = self.fint[lcase]['fx'][1]
-        Le = self.length()
-
-        g0 = P / 30 / Le
-        keg0 = g0 * np.array([[36, 3 * Le, -36, 3 * Le],
-                              [3 * Le, 4 * Le ** 2, -3 * Le, -Le ** 2],
-                              [-36, -3 * Le, 36, -3 * Le],
-                              [3 * Le, -Le ** 2, -3 * Le, 4 * Le ** 2]])
-        kg0 = np.zeros([6, 6])
-        q = [1, 2, 4, 5]
-        kg0[np.ix_(q, q)] = keg0
-
-        return kg0
 
-    def geometric_stiffness_matrix(self,lcase=0):
-        """ Geometric stiffness matrix in global coordinates
-            From: Cook et. al (1989), Section 14.2
+            The displacements of the beam between the joints follow from the
+            nodal displacements as in the stiffness matrix.
         """
+        kg0 = EBBeam.local_geometric_stiffness_matrix(self, lcase, initial)
 
-        # local-global transformation matrix
-        L = self.transformation_matrix()
+        C = self.joint_transformation()
 
-        kG0 = self.local_geometric_stiffness_matrix(lcase)
+        return C.transpose().dot(kg0.dot(C))
 
-        kG = L.transpose().dot(kG0.dot(L))
+    def joint_transformation(self):
+        """ Matrix that gives the displacements of the ends of the beam
+            (inside the joints) from the nodal displacements, Eq. (17) of
+            Jalkanen (2004).
+        """
+        C = np.eye(6)
+        q = [1, 2, 4, 5]
+        C[np.ix_(q, q)] += self.matrix_S() / self.delta()
 
-        return kG
+        return C
 
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load
 
-            'load' is a Load type object. By default, it is assumed that
-            'load' is LineLoad
-
-            Returns:
-            ---------
-            :return: Equivalent nodal loads for load in vector q
-            :rtype: np.array
+            The loads act on the beam between the joints, so the flexibility
+            of the joints affects the nodal loads.
         """
-        floc = np.zeros(6)
+        T = self.transformation_matrix(initial)
 
-        T = self.transformation_matrix()
-        L = self.length()
+        other = self.floc.get(load.sid, 0)
+        fglob = EBBeam.equivalent_nodal_loads(self, load, order, initial)
 
-        if isinstance(load, LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
-            # print(q1,q2)
-            if load.coords == 'local':
-                # print('local coordinates')
-                """ Load is given in local coordinates """
-                if load.dir == "x":
-                    """ Load is in the axial direction """
-                elif load.dir == 'y':
-                    """ Load is perpendicular to the member """
-                    floc[1] = 7 / 20 * q1 * L + 3 / 20 * q2 * L
-                    floc[4] = 3 / 20 * q1 * L + 7 / 20 * q2 * L
-                    floc[2] = L ** 2 * (1 / 20 * q1 + 1 / 30 * q2)
-                    floc[5] = -L ** 2 * (1 / 30 * q1 + 1 / 20 * q2)
-                # print(floc)
-            else:
-                """ Load is given in global coordinates: it has to be transformed
-                    first into local coordinates.
-                """
-                if load.dir == "x":
-                    # q = np.array([q1, 0, 0])
-                    q = np.array([1, 0, 0])
-                else:
-                    # q = np.array([0, q1, 0])
-                    q = np.array([0, 1, 0])
-                # Load vector transformed into element local coordinate system
-                qloc = T[:3, :3].dot(q)
-
-                """ Loads perpendicular to the axis of the element """
-                qy1 = q1 * qloc[1]
-                qy2 = q2 * qloc[1]
-                floc[1] = 7 / 20 * qy1 * L + 3 / 20 * qy2 * L
-                floc[4] = 3 / 20 * qy1 * L + 7 / 20 * qy2 * L
-                floc[2] = L ** 2 * (1 / 20 * qy1 + 1 / 30 * qy2)
-                floc[5] = -L ** 2 * (1 / 30 * qy1 + 1 / 20 * qy2)
-
-                """ Loads parallel to the axis of the element """
-                qx1 = q1 * qloc[0]
-                qx2 = q2 * qloc[0]
-                floc[0] = 0.5 * L * (0.5 * (qx1 + qx2) - 1 / 6 * (qx2 - qx1))
-                floc[3] = 0.5 * L * (0.5 * (qx1 + qx2) + 1 / 6 * (qx2 - qx1))
-
-                # Construct nodal load in local coordinates
-                # qloc[0,1,2] = axial, shear, moment of node 1
-                # qloc[3,4,5] = axial, shear, moment ofnode 2
-                # Axial force
-                # floc[[0, 3]] = 0.5 * qloc[0] * L
-                # Shear force
-                # floc[[1, 4]] = 0.5 * qloc[1] * L
-                # Moment
-                # floc[2] = qloc[1] * L ** 2 / 12.0
-                # floc[5] = -floc[2]
-
-                # print(floc)
-
-        if len(self.releases) > 0:
-            """ There are releases in the element, so the local load vector
-                is modified.
-            """
-            rel = self.releases
-            # nrel is the list of non-released forces
-            nrel = np.setdiff1d(np.arange(6), rel)
-
-            # print(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
-            floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
-            floc[rel] = 0
-
-            # Store local loads
-        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
-
-        # print(self.floc)
-
-        fglob = T.transpose().dot(floc)
-
-        return fglob
\ No newline at end of file
+        floc = self.joint_transformation().transpose().dot(T.dot(fglob))
+        self.floc[load.sid] = other + floc
+
+        return T.transpose().dot(floc)
-- 
2.43.0


From 75dc4c935d22aa0acc12c37cf5578580cd748c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 194/214] fix: second order displacements of supported nodes
 are zero

---
 metku/framefem/framefem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 8af7acb..9be5f8e 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -735,8 +735,6 @@ class FrameFEM:
             
         self.KII = KII
         self.pII = pII
-        
-        print(pII)
             
         u2 = np.linalg.solve(KII, pII)
         
@@ -763,6 +761,9 @@ class FrameFEM:
             node.u[free_dofs] = u[dofs[free_dofs]]
             """
         elif support_method == 'REM':
+            for node in self.nodes:
+                # Displacements of supported dofs are zero
+                node.u2[lcase] = np.zeros(len(node.dofs))
             for ui, d in zip(u2,self.glob_dofs):                
                 for node in self.nodes:
                     try:
-- 
2.43.0


From 44ce7f6b2f15213fbb82a2966096f8d047ec3977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 195/214] fix: second order analysis takes the joints of
 semi-rigid beams into account

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index fdacb83..4d11f3e 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -180,7 +180,31 @@ class EBSemiRigidBeam(EBBeam):
         other = self.floc.get(load.sid, 0)
         fglob = EBBeam.equivalent_nodal_loads(self, load, order, initial)
 
-        floc = self.joint_transformation().transpose().dot(T.dot(fglob))
+        floc = T.dot(fglob)
+        if order == 1 or self.fint[load.sid]['fx'][0] >= 0:
+            floc = self.joint_transformation().transpose().dot(floc)
+        else:
+            k0 = EBBeam.local_second_order_stiffness_matrix(self, load.sid)
+            floc = floc - self.joint_rotations(k0).transpose().dot(floc[[2, 5]])
         self.floc[load.sid] = other + floc
 
         return T.transpose().dot(floc)
+
+    def joint_rotations(self, k0):
+        """ Rotations of the joints for given nodal displacements, when
+            'k0' is the local stiffness matrix of the beam with rigid joints
+        """
+        C = np.diag([0.0 if k == kRigid else 1 / k for k in self.rot_stiff])
+        q = [2, 5]
+
+        return C.dot(np.linalg.solve(np.eye(2) + k0[np.ix_(q, q)].dot(C), k0[q, :]))
+
+    def local_second_order_stiffness_matrix(self, lcase=0):
+        """ Stiffness matrix for second order analysis, with the joints """
+        if self.fint[lcase]['fx'][1] >= 0:
+            # First order stiffness matrix, where the joints are included
+            return EBBeam.local_second_order_stiffness_matrix(self, lcase)
+
+        k0 = EBBeam.local_second_order_stiffness_matrix(self, lcase)
+
+        return k0 - k0[:, [2, 5]].dot(self.joint_rotations(k0))
-- 
2.43.0


From 23b9bfdcae26038527ec0a37a112ad90f91b3769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 196/214] fix: second order analysis of beams with small or
 vanishing axial force

---
 metku/framefem/elements/ebbeam.py | 38 ++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index ac1b4ea..263617e 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -279,11 +279,19 @@ class EBBeam(Element):
             slam = np.sin(lam)
             clam = np.cos(lam)
             
-            D = 2-2*clam-lam*slam
-            K = lam**3/12*slam/D
-            H = lam**2/6*(1-clam)/D
-            PSI = lam/4*(slam-lam*clam)/D
-            PHI = 0.5*lam*(lam-slam)/D
+            if lam < 0.1:
+                # The expressions below are of the form 0/0 when the axial
+                # force vanishes
+                K = 1 - lam**2/10
+                H = 1 - lam**2/60
+                PSI = 1 - lam**2/30
+                PHI = 1 + lam**2/60
+            else:
+                D = 2-2*clam-lam*slam
+                K = lam**3/12*slam/D
+                H = lam**2/6*(1-clam)/D
+                PSI = lam/4*(slam-lam*clam)/D
+                PHI = 0.5*lam*(lam-slam)/D
             
             k0 = np.zeros((6, 6))
             #
@@ -415,13 +423,15 @@ class EBBeam(Element):
                             k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                             a = 0.5*L
                             lam = k*a
-                            s = np.sin(lam)
-                            c = np.cos(lam)
+                            if lam < 0.05:
+                                m = 1/3 + lam**2/45
+                            else:
+                                m = (1 - lam/np.tan(lam))/lam**2
                             
                             floc[1] = 0.5*q1*L
                             floc[4] = 0.5*q1*L                    
-                            floc[2] = -q1*a**2*(lam*c-s)/lam**2/s
-                            floc[5] = q1*a**2*(lam*c-s)/lam**2/s
+                            floc[2] = q1*a**2*m
+                            floc[5] = -q1*a**2*m
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
@@ -472,15 +482,17 @@ class EBBeam(Element):
                         k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                         a = 0.5*L
                         lam = k*a
-                        s = np.sin(lam)
-                        c = np.cos(lam)
+                        if lam < 0.05:
+                            m = 1/3 + lam**2/45
+                        else:
+                            m = (1 - lam/np.tan(lam))/lam**2
                         
                         qy1 = q1*qloc[1]
                         qy2 = q2*qloc[1]
                         floc[1] = 0.5*qy1*L
                         floc[4] = 0.5*qy1*L                    
-                        floc[2] = -qy1*a**2*(lam*c-s)/lam**2/s
-                        floc[5] = qy1*a**2*(lam*c-s)/lam**2/s
+                        floc[2] = qy1*a**2*m
+                        floc[5] = -qy1*a**2*m
                         
                         
                         
-- 
2.43.0


From d76205bda12ad42974862bf9ae760e2629f73020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 197/214] fix: second order analysis of hinged members in
 tension

---
 metku/framefem/elements/ebbeam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 263617e..8571e3e 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -312,7 +312,8 @@ class EBBeam(Element):
             k0[[2, 5], [2, 5]] = a*PSI
         else:
             # For members in tension, use first order stiffness matrix
-            k0 = self.local_stiffness_matrix(E, A, I1, Le)
+            # (the releases are already included in it)
+            return self.local_stiffness_matrix(E, A, I1, Le)
         
         if len(self.releases) > 0:
             """ There are releases in the element, so the stiffness matrix
-- 
2.43.0


From e4c6ab9a8954f1ad5f828df26b4bdc6fa85856c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 198/214] fix: bearing of the beam web in fin plate joints uses
 edge distances of the beam

---
 metku/structures/steel/fin_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 63a0230..4f6b63a 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -316,7 +316,7 @@ class FinPlateJoint:
             a = 0.5*self.z*p2/self.I
             b = 0.5*self.z*self.p1/self.I*(n1-1)
         
-        ever = [self.e1,self.e2b]        
+        ever = [self.e1b,self.e2b]        
         pver = [self.p1,p2]
         # NOTE! This bearing resistance distinguishes between edge and other bolts.
         # ECCS guide takes the minimum edge distance term using e and p regardless of
@@ -324,7 +324,7 @@ class FinPlateJoint:
         FbverRd = self.bolt.bearing_resistance(self.beam.fu, self.beam.tw, ever, pver)
         
         
-        ehor = [self.e2b,self.e1]
+        ehor = [self.e2b,self.e1b]
         phor = [p2,self.p1]
         FbhorRd = self.bolt.bearing_resistance(self.beam.fu, self.beam.tw, ehor, phor)
         
-- 
2.43.0


From ebefd9fbaeb95f46d36b2c3f3d3f40e7f9923936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 199/214] fix: block tearing of fin plate joints with one
 column of bolts

---
 metku/structures/steel/fin_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 4f6b63a..76eb2f5 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -244,7 +244,7 @@ class FinPlateJoint:
     def fin_plate_block_tearing(self,verb=False):
         """ Shear resistance of fin plate, block tearing """
         
-        Ant = self.tp*(self.e2+self.p2-(2*self.plate.n2-1)*0.5*self.d0)
+        Ant = self.tp*(self.e2+(self.plate.n2-1)*self.p2-(2*self.plate.n2-1)*0.5*self.d0)
         Anv = self.tp*(self.hp-self.e1-(self.plate.n1-0.5)*self.d0)
         VRd5 = 0.5*self.fup*Ant/gammaM2 + self.fyp*Anv/np.sqrt(3)/gammaM0
 
@@ -366,7 +366,7 @@ class FinPlateJoint:
     def beam_web_block_tearing(self,verb=False):
         """ Shear resistance of beam web, block tearing """
         
-        Ant = self.beam.tw*(self.e2b+self.p2-(2*self.plate.n2-1)*0.5*self.d0)
+        Ant = self.beam.tw*(self.e2b+(self.plate.n2-1)*self.p2-(2*self.plate.n2-1)*0.5*self.d0)
         Anv = self.beam.tw*(self.e1b+(self.plate.n1-1)*self.p1-(self.plate.n1-0.5)*self.d0)
         VRd11 = 0.5*self.beam.fu*Ant/gammaM2 + self.beam.fy*Anv/np.sqrt(3)/gammaM0
 
-- 
2.43.0


From fa8773eedebe6de6deeb393c45d3ed83250c941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 200/214] fix: spacing of bolt columns is checked when there
 are several columns

---
 metku/structures/steel/fin_plate_joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 76eb2f5..1d21e8d 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -421,7 +421,7 @@ class FinPlateJoint:
             res = False
         elif self.p1 < 2.2*self.d0:
             res = False
-        elif self.p2 > 0 and self.p2 < 2.4*self.d0:
+        elif self.plate.n2 > 1 and self.p2 < 2.4*self.d0:
             res = False
         
         if res and verb:
-- 
2.43.0


From 0db2b3c8a38d984c0f9bbf9382a919f9e864cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 201/214] fix: holes of the fin plate follow the bolt

---
 metku/structures/steel/fin_plate_joint.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 1d21e8d..693df3b 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -53,7 +53,6 @@ class FinPlateJoint:
         # centerline of the beam.
         self.plate_pos_y = 0.0
         self.bolt = bolt
-        self.plate.d0 = bolt.d0
         self.gh = gh
         self.workshop = workshop
         
@@ -66,6 +65,17 @@ class FinPlateJoint:
     
         self.vertical_symmetry = True
     
+    @property
+    def bolt(self):
+        """ Bolt of the joint """
+        return self._bolt
+    
+    @bolt.setter
+    def bolt(self,value):
+        """ The holes of the plate follow the bolt """
+        self._bolt = value
+        self.plate.d0 = value.d0
+    
     @property
     def e1(self):
         """ Vertical edge distance to fin plate edge """
-- 
2.43.0


From bd26d91d4befd1ab48985c59e9e4818585ec2b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 202/214] fix: cost of a plate has no parts left from earlier
 evaluations

---
 metku/structures/steel/plates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/structures/steel/plates.py b/metku/structures/steel/plates.py
index ca9948b..c21c5fc 100644
--- a/metku/structures/steel/plates.py
+++ b/metku/structures/steel/plates.py
@@ -94,6 +94,9 @@ class RectPlate:
             units: e
         """
         
+        for key in self._cost:
+            self._cost[key] = 0.0
+        
         self._cost['material'] = self.weight()*(material_cost + 
                                                 steel_grade_add_on(self.material.name) + 
                                                 thickness_add_on(self.t))*1e-3
-- 
2.43.0


From d72158950f4e63eac8e6fddd9f92efd1bdabd124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 203/214] fix: bolt costs of end plate joints include a nut and
 two washers for every bolt

---
 metku/structures/steel/end_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 864f55d..cc4c1b3 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -805,8 +805,8 @@ class EndPlateJoint:
             else:
                 bolt_cost = 2*bolt_costs_pt[int(row.bolt.length)][int(row.bolt.d)]
             self._cost['bolts'] += bolt_cost
-            self._cost['bolts'] += nut_unit_cost[int(row.bolt.d)]
-            self._cost['bolts'] += washer_unit_cost[int(row.bolt.d)]
+            self._cost['bolts'] += 2*nut_unit_cost[int(row.bolt.d)]
+            self._cost['bolts'] += 4*washer_unit_cost[int(row.bolt.d)]
             """ Hole costs include forming holes both in the plate in the column """
             hole_cut_length += 2*row.bolt.d0*math.pi
            
-- 
2.43.0


From 8608a6e9dc2ecd4a0a73e27d0fbf269d376c0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 204/214] fix: sawing consumables per minute are multiplied by
 the time of sawing

---
 metku/cost/workshop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/cost/workshop.py b/metku/cost/workshop.py
index 89363d9..14507ed 100644
--- a/metku/cost/workshop.py
+++ b/metku/cost/workshop.py
@@ -852,7 +852,8 @@ class SawingCost(CostCentre):
         # calculate productive time and cost of consumables for each end.   
         for t, h, Ah, At in zip(T,H,AH,AT):     
             TPnew = self.productive_time(steel_grade, h, t, Ah)
-            cCS += self.consumables(At, t, TPnew, steel_grade)
+            # consumables are per minute of sawing
+            cCS += TPnew*self.consumables(At, t, TPnew, steel_grade)
             TP += TPnew            
                     
         self.times["productive"] = TP
-- 
2.43.0


From 758ec38bb8ab1da6bb3dae2492b1ff99481a4e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 205/214] fix: VEd of frame members is the shear force in the
 plane of the frame

---
 metku/frame2d/frame2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 99abf01..4653193 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1644,7 +1644,7 @@ class FrameMember:
     def VEd(self):
         VEds = {}
         for load_id in self.load_ids:
-            VEd = self.get_absmax_force_value(load_id, 'fy')
+            VEd = self.get_absmax_force_value(load_id, 'fz')
             VEds[load_id] = VEd
         return VEds
 
-- 
2.43.0


From 3857e2a818c09c4c3affe8fb3c2f7871baa25b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 206/214] fix: line loads of frame members vary with the
 location of the nodes and have their factor

---
 metku/frame2d/frame2d.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 4653193..8de9ced 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3655,8 +3655,11 @@ class LineLoad(Load):
     def add_load(self, fem_model):
         """ Add the load to the FEM model """
         # k = self.calc_k()
-        v0, v1 = self.values
-        qvals = np.linspace(v0, v1, len(self.member.elements) + 1)
+        # values of the load at the nodes of the member, whose elements
+        # can have different lengths
+        v0, v1 = self.f*self.values
+        locs = self.member.locs
+        qvals = [v0 + loc*(v1 - v0) for loc in locs]
         for i, elem_id in enumerate(self.member.elements.keys()):
             # v1 = (i * k) + v0
             load = fem.LineLoad(self.load_id,
@@ -3667,7 +3670,6 @@ class LineLoad(Load):
                                 self.direction,
                                 self.coord_sys)
             fem_model.add_load(load)
-            v0 = v1
 
 
 # --------------------------- SUPPORT CLASSES ----------------------------
-- 
2.43.0


From 684450360a89ecdba76b3b5fdda067128c26a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 207/214] fix: members have nodes at point loads and supports
 added to the frame before them

---
 metku/frame2d/frame2d.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 8de9ced..20ce6b1 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -255,6 +255,13 @@ class Frame2D:
                 this.add_node_coord(coord)
                 member.add_node_coord(coord)
 
+        # Point loads and supports already in the frame that are located
+        # between the ends of the member
+        for point_load in self.point_loads.values():
+            this.add_node_coord(point_load.coordinate)
+        for support in self.supports.values():
+            this.add_node_coord(support.coordinate)
+
         if str(this.nodal_coordinates) not in [str(c) for c in
                                                self.nodal_coordinates]:
             self.nodal_coordinates.extend(this.nodal_coordinates)
-- 
2.43.0


From db6d4c833ef563167c4c793f96b51e3f7737c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 208/214] fix: generating a frame again does not duplicate
 loads or move nodes

---
 metku/frame2d/frame2d.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 20ce6b1..c18b1c9 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -690,6 +690,11 @@ class Frame2D:
         # coordinates, otherwise initialize frame.
         if not self.is_generated:
             self.is_generated = True
+        else:
+            # Supports and loads are added again below
+            self.f.supports.clear()
+            self.f.loads.clear()
+            self.is_calculated = False
         for member in self.members.values():
             member.calc_nodal_coordinates()  # Generate FEM nodes for a member
             member.round_coordinates()
@@ -2118,7 +2123,7 @@ class FrameMember:
             etc. that are located between end points of the member.
         """
 
-        self.nodal_coordinates.extend(self.added_coordinates)
+        added = [[round(c, PREC) for c in coord] for coord in self.added_coordinates]
 
         """ By default, 5 elements are created, but this can be changed by
             'num_elements'
@@ -2140,6 +2145,11 @@ class FrameMember:
             coord = list(self.to_global(loc))
             self.nodal_coordinates.append(coord)
 
+        # Additional coordinates, unless there is a node already
+        for coord in added:
+            if coord not in [[round(c, PREC) for c in x] for x in self.nodal_coordinates]:
+                self.nodal_coordinates.append(coord)
+
         """ Sort coordinates according to their distance from the
             first end node
         """
@@ -3606,8 +3616,9 @@ class PointLoad(Load):
 
     def add_load(self, fem_model):
 
-        if self.coordinate in fem_model.nodal_coords:
-            idx = fem_model.nodal_coords.index(self.coordinate)
+        coordinate = [round(c, PREC) for c in self.coordinate]
+        if coordinate in fem_model.nodal_coords:
+            idx = fem_model.nodal_coords.index(coordinate)
             self.node = fem_model.nodes[idx]
             fem_model.add_load(
                 fem.PointLoad(self.load_id, self.node, self.v, self.f))
-- 
2.43.0


From 0e71c9a5cf074603781115d45917a2fb2ab28556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 209/214] fix: removing and renewing the self-weight of a frame

---
 metku/frame2d/frame2d.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index c18b1c9..fdcbccb 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1399,17 +1399,24 @@ class Frame2D:
             # self.add_loads('self_weight')
             # self.generate_frame()
         else:
-            self.remove_self_weight()
+            self.clear_self_weight()
             self.add_self_weight()
 
-    def remove_self_weight(self):
-        """ Removes self weight from frame's members
+    def clear_self_weight(self):
+        """ Deletes self weight loads of the frame and its members
         """
         self.self_weight = False
-        del (self.line_loads["self_weight"])
+        self.line_loads = {name: load for name, load in self.line_loads.items()
+                           if not name.startswith("self_weight")}
         for member in self.members.values():
             member.remove_self_weight()
-        self.generate_frame()
+
+    def remove_self_weight(self):
+        """ Removes self weight from frame's members
+        """
+        self.clear_self_weight()
+        if self.is_generated:
+            self.generate()
 
     def assign_forces(self, load_id=LoadIDs.ULS):
 
@@ -2495,14 +2502,15 @@ class FrameMember:
             # self.weight is kg's, multiplier changes it to N's
             multiplier = 10
             value = -1 * multiplier * self.weight / self.length
-            frame.add(LineLoad(self, [value, value], 'y'))
+            frame.add(LineLoad(self, [value, value], 'y', name=load_id))
 
     def remove_self_weight(self):
         """ Removes self-weight from loads
         """
         if self.self_weight:
             self.self_weight = False
-            del (self.loads["self_weight"])
+            self.loads = [load for load in self.loads
+                          if not load.name.startswith("self_weight")]
 
         if len(self.loads) == 0:
             self.has_load = False
-- 
2.43.0


From 858bcf57271ea58bea00fd5acea47f750d774131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 210/214] fix: optimization of frame members goes on until no
 member changes

---
 metku/frame2d/frame2d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index fdcbccb..c12819c 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -552,8 +552,10 @@ class Frame2D:
 
         while PROFILES_CHANGED and k < kmax:
             self.calculate('all', 'REM')
+            PROFILES_CHANGED = False
             for member in self.members.values():
-                PROFILES_CHANGED = member.optimum_design(prof_type)
+                if member.optimum_design(prof_type):
+                    PROFILES_CHANGED = True
 
             k += 1
 
-- 
2.43.0


From ca60c0dbb17c67082a89fce61c5e0beff81258c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 211/214] fix: design of frame members uses the forces of the
 load case

---
 metku/frame2d/frame2d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index c12819c..ebcc504 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2622,6 +2622,9 @@ class FrameMember:
             provide several load cases.
         """
 
+        if self.elements and lcase in self.load_ids:
+            self.assign_forces(lcase)
+
         rmax = self.member.design()
 
         if rmax > 1.0:
-- 
2.43.0


From 160a5bb6392b3bf467b674ad896272ea754c507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 212/214] fix: loads of a frame get unique names after loads
 were deleted

---
 metku/frame2d/frame2d.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index ebcc504..639c5ac 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -207,7 +207,10 @@ class Frame2D:
             self.load_ids.append(this.load_id)
 
         if this.name in self.line_loads.keys():
-            this.name += str(len(self.line_loads))
+            num = len(self.line_loads)
+            while this.name + str(num) in self.line_loads.keys():
+                num += 1
+            this.name += str(num)
         self.line_loads[this.name] = this
 
     def add_pointload(self, this) -> bool:
@@ -225,7 +228,10 @@ class Frame2D:
             self.load_ids.append(this.load_id)
 
         if this.name in self.point_loads.keys():
-            this.name += str(len(self.point_loads))
+            num = len(self.point_loads)
+            while this.name + str(num) in self.point_loads.keys():
+                num += 1
+            this.name += str(num)
         self.point_loads[this.name] = this
 
         """ If the location of the point load is in between
-- 
2.43.0


From e5acbf26c0267393554d9f7f897aaf256fad84a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 213/214] fix: frame members of one element can have hinges at
 both ends

---
 metku/frame2d/frame2d.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 639c5ac..cffe333 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2361,13 +2361,17 @@ class FrameMember:
                 fem_model.add_element(self.elements[index])
                 self.element_ids.append(index)
 
+                releases = []
                 if i == 0 and self.hinges[0]:
                     """ There is a hinge in the first end """
-                    fem_model.add_release(index, [2])
+                    releases.append(2)
 
                 if i == N - 2 and self.hinges[1]:
-                    """ There is a hinge in the first end """
-                    fem_model.add_release(index, [5])
+                    """ There is a hinge in the second end """
+                    releases.append(5)
+
+                if releases:
+                    fem_model.add_release(index, releases)
 
                 index += 1
 
-- 
2.43.0


From 7fb577c4f6a7701b9d80f349363e32b350a691a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 214/214] fix: joints of a generated frame can be hinged when
 it has members other than beams

---
 metku/frame2d/frame2d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index cffe333..7f3d33e 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2025,7 +2025,8 @@ class FrameMember:
         if len(self.element_ids) > 0:
             idx = self.element_ids[0]
             ele = self.elements[idx]
-            ele.rot_stiff[0] = val
+            if isinstance(ele, EBSemiRigidBeam):
+                ele.rot_stiff[0] = val
 
         self.__Sj1 = val
 
@@ -2043,7 +2044,8 @@ class FrameMember:
         if len(self.element_ids) > 0:
             idx = self.element_ids[-1]
             ele = self.elements[idx]
-            ele.rot_stiff[1] = val
+            if isinstance(ele, EBSemiRigidBeam):
+                ele.rot_stiff[1] = val
 
         self.__Sj2 = val
 
-- 
2.43.0

