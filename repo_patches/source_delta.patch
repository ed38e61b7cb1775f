From d9f0d7298d8eaa26ba1f769c0a0c3505ccb59668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:51 +0000
Subject: [PATCH 01/20] fix: evaluate relations on the value of the polynomial
 at the point

evaluate threw the value away and tested the builtin sum instead, so term
substitution (internal_ts, isym.ts) answered independently of the input.
---
 vts/uni_vts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index f108d38..2173e40 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -777,10 +777,10 @@ def evaluate(point, le, lt, eq, ne):
       
   for (poly, strategy) in r_str:
     #print "  poly: %s" %poly
-    evaluate_poly(poly, point)
+    value = evaluate_poly(poly, point)
     #print "  term values: %s" %map(lambda (c, p): c*point**p, terms)
     #print "  sum: %s" %sum
-    if not strategy.condition(sum):
+    if not strategy.condition(value):
       raise ConditionExc(point, poly, strategy.msg)
       
 def evaluate_vts_root(root, eq, lt):
-- 
2.43.0


From ad2f72148a00dc9e9b87666d3abb9a39a0c445a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:51 +0000
Subject: [PATCH 02/20] fix: write cache files atomically

A run that was killed (or was still busy) while dumping a matrix left a
truncated pickle behind, and every later run in that directory failed with
EOFError, for matrix_of_signs_inverse.pkl even at import.
---
 vts/matrix_of_signs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vts/matrix_of_signs.py b/vts/matrix_of_signs.py
index 8bcdb07..9e76998 100644
--- a/vts/matrix_of_signs.py
+++ b/vts/matrix_of_signs.py
@@ -12,8 +12,13 @@ def write_to_cache(name, obj):
   except OSError as exception:
     if exception.errno != errno.EEXIST:
       raise exception
-  with open(os.path.join('cache', name), 'wb') as f:
+  path = os.path.join('cache', name)
+  # dump under a name of this process and rename when complete, so that nobody
+  # ever reads a half written file (killed run, other process)
+  temp_path = '%s.%d.tmp' %(path, os.getpid())
+  with open(temp_path, 'wb') as f:
     pickle.dump(obj, f)
+  os.rename(temp_path, path)
 def cache_hit(name):
   return os.path.isfile(os.path.join('cache', name))
 def read_cache(name):
-- 
2.43.0


From 3ea559856eb991787c10273330d6e86b504bfad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:51 +0000
Subject: [PATCH 03/20] fix: read pickled examples from the directory they are
 written to

The writer (and this repository) uses Examples/Metitarski, the readers looked
in Examples/MetiTarski and silently found nothing.
---
 vts/examples_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/examples_parser.py b/vts/examples_parser.py
index 807ed3c..46786d4 100644
--- a/vts/examples_parser.py
+++ b/vts/examples_parser.py
@@ -90,7 +90,7 @@ def make_univariate(relations):
 
 def unpickle_dirs_gen():
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
 
   dirGen = itertools.chain( os.walk(met_dir), os.walk(hid_dir))
@@ -127,7 +127,7 @@ def unpickle_dirs():
   
   """
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
   
   met_results = unpickle_from_dir(met_dir)
-- 
2.43.0


From 6a0c0edda08102b61d8c99e373ef735928f84952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:51 +0000
Subject: [PATCH 04/20] fix: list the invalid examples

check_examples stored every result under the builtin file type and then failed
with TypeError as soon as one example was not valid.
---
 vts/checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/checker.py b/vts/checker.py
index 09fde35..53f96cd 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -57,12 +57,12 @@ def check_examples(vts=True):
       print "formula value: %s" %formula_value
       print
       if not formula_value:
-        results[file] = formula_value
+        results[(file_index, ex_index)] = formula_value
 
 
   print results
   for f in results:
-    print "%s - %s" %(f[:-8], results[f])
+    print "%s - %s" %(f, results[f])
   
 def make_relation_map(formula):
   """Distributes relations in formula to map based on their type (<=, <, =, !=)
-- 
2.43.0


From b364ed04c7ed659dcbe67b058647adad2cd6090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:38 +0000
Subject: [PATCH 05/20] fix: convert every form of the zero polynomial to []

Only the int 0 was; sympy's 0 became [0], and an expression that expands to 0
raised an exception.
---
 vts/isym.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vts/isym.py b/vts/isym.py
index a23f4d4..216b89b 100644
--- a/vts/isym.py
+++ b/vts/isym.py
@@ -19,12 +19,14 @@ def convert(poly):
       return []
     return [poly]
 
+  poly = poly.expand()
+  if poly == 0:
+    return []
+
   symbols = poly.free_symbols
   if len(symbols) == 0:
     return convert_rationals_to_ints([poly])
 
-  poly = poly.expand()
-
   if len(symbols) > 1:
     raise Exception("more than one symbol")
   x = symbols.pop()
-- 
2.43.0


From c861923081bc84777e842fe452a74014ad7a37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:38 +0000
Subject: [PATCH 06/20] fix: decide constraints on the zero polynomial

0 <= 0 and 0 = 0 always hold and 0 < 0 and 0 != 0 never do; both decision
procedures asked for the roots of the zero polynomial and raised instead.
---
 vts/uni_vts.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index 2173e40..ee544e6 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -62,6 +62,10 @@ def internal_ts(le, lt, eq, ne):
   return boolean corresponding to satisfiability of constraints
   """
   
+  if any(map(is_zero, lt + ne)):
+    return False
+  le, eq = filter_zeros(le), filter_zeros(eq)
+
   # iterate over all points that might be end points of closed intervals
   for equality in (eq + le):
     roots = z3rcf.MkRoots(equality)
@@ -97,6 +101,10 @@ def internal_ts(le, lt, eq, ne):
   
   
 def internal_vts(le, lt, eq, ne):
+  if any(map(is_zero, lt + ne)):
+    return False
+  le, eq = filter_zeros(le), filter_zeros(eq)
+
   sign_lookup = sign_conditions_lookup(le, lt, eq, ne)
   all_polies = (le + lt + eq + ne)
   # print "internal"
@@ -139,6 +147,12 @@ def internal_vts(le, lt, eq, ne):
   return True
   
 
+def is_zero(poly):
+  return all(map(lambda c: c == 0, poly))
+
+def filter_zeros(polies):
+  return filter(lambda p: not is_zero(p), polies)
+
 def multiply(poly1, poly2):
   #print "poly1: %s" %poly1
   #print "poly2: %s" %poly2
-- 
2.43.0


From 2e2233feb5b85b1f98edb17bc12c9403901b92fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:42 +0000
Subject: [PATCH 07/20] fix: refuse to convert expressions that are not
 polynomials

The terms of such an expression were silently dropped or changed (1/x became
[], x + 1/x became [0, 1], sin(x) became [0, 1]), so that a sequent with a
division by a variable was decided as a different one.
---
 vts/isym.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vts/isym.py b/vts/isym.py
index 216b89b..53d26b3 100644
--- a/vts/isym.py
+++ b/vts/isym.py
@@ -31,6 +31,9 @@ def convert(poly):
     raise Exception("more than one symbol")
   x = symbols.pop()
 
+  if not poly.is_polynomial(x):
+    raise Exception("not a polynomial")
+
   terms = poly.as_ordered_terms()
 
   leadterms = map(lambda t: t.leadterm(x), terms)
-- 
2.43.0


From 80c1ac943e1165521b5bb220aa57246843e98642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:42 +0000
Subject: [PATCH 08/20] fix: do not overwrite the parser's own names with
 variables

sympy.var binds the symbol in the namespace of this module: after a sequent
with a variable called sympy no number or relation could be parsed any more.
---
 vts/grf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/grf_parser.py b/vts/grf_parser.py
index ed9cbc0..b776b42 100644
--- a/vts/grf_parser.py
+++ b/vts/grf_parser.py
@@ -15,7 +15,7 @@ def doInt(s,l,t):
 
     
 def doVariable(s, l, t):
-  return sympy.var(t[0])
+  return sympy.Symbol(t[0])
   #return sympy.var('x')
   
 def proc_le(s, l, t):
-- 
2.43.0


From 86828964c9fd2411e52850a9a67574a12852dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:44 +0000
Subject: [PATCH 09/20] fix: print Cohen-Hormander diagrams with several rows

Symbolic polynomials have no truth value for <, so sort the rows by their text.
---
 highschool_qe/cohenhorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 0664806..6ed2869 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -614,7 +614,7 @@ class CohenHormander:
       header.update(diagram[row].keys())
     #print map(lambda x: x, header)
     print "-" * max_len
-    for row in sortedset(diagram.keys()):
+    for row in sortedset(diagram.keys(), key = str):
       print str("%%%ds   " %max_len) %row,
   #     print "%s " %diagram[row],
   #     for index in diagram[row].keys():
-- 
2.43.0


From de21ba613bcdab0f83e5c8000269f405182e339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:45 +0000
Subject: [PATCH 10/20] fix: split on the leading coefficient of the polynomial
 being added

Cohen-Hormander never decided the leading coefficient of the polynomial of
maximum degree: it raised, or missed the case where the coefficient vanishes.
---
 highschool_qe/cohenhorm.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 6ed2869..685a752 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -84,6 +84,26 @@ class CohenHormander:
     sys.stdout.write("\rdeg of max_poly: %d" %(self._algebra.degree(max_poly)))
     sys.stdout.flush()
     
+    # the sign of the leading coefficient has to be known, and when it is
+    # zero then the polynomial has the same signs as its tail
+    max_poly_lc = self._algebra.LC(max_poly)
+    if (self._algebra.degree(max_poly) > 0) & \
+        self._algebra.has_variable(max_poly_lc):
+      ret = []
+      if context.has_key(max_poly_lc) == False:
+        for sign in [-1, 0, 1]:
+          con = context.copy()
+          con[max_poly_lc] = sign
+          ret += self._real_table(polys, con)
+        return ret
+      if context[max_poly_lc] == 0:
+        tail = self._algebra.p_tail(max_poly)
+        tables = self._real_table(list(set) + [tail], context)
+        for (table, con) in tables:
+          table[max_poly] = table[tail].copy()
+          ret.append((self.copy_table(table, polys, con), con))
+        return ret
+
     derivative = self._algebra.derivative(max_poly)
 
     # polynomials needed (all other + plus derivative)
-- 
2.43.0


From 6634fdd9852c8d24064dd45d1794f55f7522540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:45 +0000
Subject: [PATCH 11/20] fix: keep the contexts in which all the needed
 polynomials are zero

Cohen-Hormander dropped them, and raised on the zero polynomial.
---
 highschool_qe/cohenhorm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 685a752..f693dfb 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -81,7 +81,7 @@ class CohenHormander:
     # pick the next polynomial (which is of maximum degree)
     max_poly = set.pop(0)
     
-    sys.stdout.write("\rdeg of max_poly: %d" %(self._algebra.degree(max_poly)))
+    sys.stdout.write("\rdeg of max_poly: %s" %(self._algebra.degree(max_poly)))
     sys.stdout.flush()
     
     # the sign of the leading coefficient has to be known, and when it is
@@ -138,6 +138,9 @@ class CohenHormander:
         lambda p: self._algebra.degree(p) >= 0, 
         pols + rems
       )
+      # everything is zero in this context
+      if len(new_goal) == 0:
+        new_goal = [self._algebra.zero()]
       
       # get all tables (list of tables and contexts)
       needed_tables = self._real_table(new_goal, con)
-- 
2.43.0


From f834f8862b4a0de70ec8a7ed7eda50f5ab9984a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 12/20] fix: keep an atom's variables in step with its reduced
 polynomial

Reduction by a Groebner basis can bring in new variables, and a partial
point that lacks them was then taken to decide the atom.
---
 GRF/grf.sage | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index cc067a9..4981be9 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -75,6 +75,7 @@ class RCF_Atom(RCF):
         print "      - Old poly: ", self.poly
         print "      - New poly: ", new_poly
         self.poly = new_poly
+        self.vars = new_poly.variables()
 
     def negate(self):
         if self.op == ">":
-- 
2.43.0


From b803e93c663d5b11fc2f071a14d9ef34971adab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 13/20] fix: do not lose equations when promoting an equation

The promoted equation and the ones already in the goal were reduced by
each other, which can turn both into the same equation.
---
 GRF/grf.sage | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 4981be9..5276447 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -197,17 +197,18 @@ class RCF_Goal(RCF):
             self.goal_hyps = self.goal_hyps + [gh]
         else:
             B = self.gb
-            if gh.op == '=':
+            if self.gb != []:
+                # Simplify new gb using current goal_hyps
+                gh.quotient_ring_inject(self.gb)
+            if gh.op == '=' and gh.poly != 0:
                 I = ideal([gh.poly])
                 B = I.groebner_basis()
                 # Currently, B = I :-)!
-                # Simplify current goal_hyps using new gh
+                # Simplify current goal_hyps using (the simplified) gh;
+                # simplifying both by each other would lose equations.
                 for h in self.goal_hyps:
                     h.quotient_ring_inject(B)
                 B = ideal(self.gb + [gh.poly]).groebner_basis()
-            if self.gb != []:
-                # Simplify new gb using current goal_hyps
-                gh.quotient_ring_inject(self.gb)
             self.goal_hyps = self.goal_hyps + [gh]
             # Update our working self.gb in case gh has enriched it
             self.gb = B
-- 
2.43.0


From 92ffac2e336b044d9215f97592bfab82a234c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 14/20] fix: isolate all the roots of polynomials with rational
 roots

The irrational roots of a polynomial that also has rational roots were
dropped, and isolating intervals could contain other polynomials' roots.
---
 GRF/grf.sage | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 5276447..1fef581 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -443,19 +443,19 @@ class QE_Factory(RCF):
         if (univ_polys==[]):
             return []
         else:
-            easy_roots_global, rri = [], []
+            easy_roots = set()
             prod = 1
             for p in univ_polys:
-                easy_roots = p.roots()
-                if easy_roots != []:
-                    easy_roots_global += [[(a, a), m] for (a, m) in easy_roots]
-                else:
-                    prod = prod * p
-            if prod != 1:
-                rri = prod.real_root_intervals()
-            #print "rri's: ", rri
-            #print "easy_roots:", easy_roots_global
-            return rri + easy_roots_global
+                easy_roots.update([a for (a, m) in p.roots()])
+                prod = prod * p
+            rri = []
+            for ((l, u), m) in prod.real_root_intervals():
+                # A rational root is exact in the interval isolating it.
+                for a in easy_roots:
+                    if l < a and a < u:
+                        l, u = a, a
+                rri.append(((l, u), m))
+            return rri
 
     #
     # Given a rational interval (presented as (l, u), a lower and
-- 
2.43.0


From af47f273f9233eaff97dd684839b2fef8b90e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 15/20] fix: project irreducible factors

Resultants of polynomials with a common factor and discriminants of
polynomials with a multiple factor vanish, so that cells were missed.
---
 GRF/grf.sage | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 1fef581..2f54378 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -313,33 +313,20 @@ class QE_Factory(RCF):
         self.proj_ord = po.compute_proj_ord()
         print str(po)
 
-    #
-    # If a poly is a pure power of the form (c_i x_i^d), then return
-    # the base (x_i). Otherwise, return poly unchanged.
-    #
-
-    def pure_poly_base(self, p):
-        if (p == p.lt()):
-            vs = p.variables()
-            if len(vs) == 1:
-                return vs[0]
-            else:
-                return p
-        else:
-            return p
-
     #
     # Filter polynomials (at any projection level) which can be
     # cheaply seen to be unnecessary for CAD tree construction.
     # This currently:
     #  - removes all rational constants,
-    #  - replaces all polys of the form (c_i x_i^d) with (x_i)
-    #     (duplicates are cleared using set()).
+    #  - replaces all polys with their irreducible factors
+    #     (duplicates are cleared using set()). Resultants and
+    #     discriminants of polys with common or multiple factors
+    #     vanish, and would lose the cells these delimit.
     #
 
     def filter_proj_set(self, ps):
         ps_1 = filter((lambda p: not(p.is_constant())), ps)
-        ps_2 = list(set(map(self.pure_poly_base, ps_1)))
+        ps_2 = list(set([f for p in ps_1 for (f, e) in p.factor()]))
         # return ps_2
         # disabling ps_2 filtering for testing 13-Jun
         return ps_2 # Is this ok?
@@ -375,10 +362,7 @@ class QE_Factory(RCF):
 
     #
     # The projection phase: Compute a full (filtered) Brown-McCallum
-    # hierarchy of projection sets, bound to self.proj_sets.  Note
-    # that we currently don't compute projection factor sets, only
-    # projection sets.  (This affects neither completeness nor
-    # soundness, only efficiency.)
+    # hierarchy of projection factor sets, bound to self.proj_sets.
     #
 
     def projection_phase(self):
-- 
2.43.0


From 638fe7eec4344f1c58b6582aa8e973b5d9cb760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 16/20] fix: lift without a goal

sample_pt_dicts() and check() without partial=True raised an
AttributeError with two or more variables.
---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 2f54378..1ba65af 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -618,7 +618,7 @@ class QE_Factory(RCF):
 
         # Special partiality for GRF: We short-circuit True cells!
 
-        if goal.eval_on_dict(parent_dict) == True:
+        if goal != None and goal.eval_on_dict(parent_dict) == True:
             print "--> Partiality for GRF short-circuited lifting over cell (R^" \
                 + str(l) + "):" + str(i) + "!"
             return []
-- 
2.43.0


From 28256ae736950b16615ae1cead4852ed4aa239b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 17/20] fix: rule out the empty set of hypotheses

Where no hypothesis is true and the goal fails, nothing was recorded, and
with no other bad subset check() raised an IndexError.
---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 1ba65af..0edc483 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -859,7 +859,7 @@ in a (uniform) epsilon(=" + str(epsilon) + ") neighborhood.")
                     #print "    " + str(bad)
                     if len(bad) == len(self.hyps):
                         raise Exception("Counterexample!: " + str(d))
-                    if bad not in bads and bad != []:
+                    if bad not in bads:
                         # Filter out sets in bads that are subsets of
                         # bad. This is a disgusting hack! Must change
                         # to tuple representation soon.
-- 
2.43.0


From 79625c689a950cbdf9eaffc1f66d9d86872fa116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 18/20] fix: do not reuse the variable order of an earlier
 problem

The second problem over other variables in one session raised a KeyError
or was searched in the wrong variables.
---
 GRF/local_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index 8291f6d..e01e38b 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -44,7 +44,7 @@ class VarOrder:
     order = None
     @staticmethod
     def var_order(D):
-        if not VarOrder.order:
+        if not VarOrder.order or set(VarOrder.order) != set(D.keys()):
             VarOrder.order = D.keys()
         return VarOrder.order
     @staticmethod
-- 
2.43.0


From f4d7351b103ef4081144e8b30654f25b12a05240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 19/20] fix: search without hidden hypotheses

A counterexample found after all hypotheses are promoted was hidden by
an IndexError of random.choice([]).
---
 GRF/local_search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index e01e38b..ebafff1 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -175,6 +175,8 @@ def local_search_sampling(Prob,D,sample_params):
             
             A = choose_atom_true(Prob,x)
             if A == None:
+                if Prob.get_hidden_hyp_atoms() == []:
+                    break # Every hypothesis has been promoted
                 A = choose_atom_random(Prob,x)
 
             # Sets up a function so that root solving it flips
-- 
2.43.0


From 379084635c81266f28f79a8c8b91c2af402b7ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 20/20] fix: hide only formulas of the original antecedent

Negated succedents moved to the antecedent were listed as antecedent
formulas to hide, at positions the sequent does not have.
---
 GRF/smt2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GRF/smt2.py b/GRF/smt2.py
index 836e970..44dcd1a 100644
--- a/GRF/smt2.py
+++ b/GRF/smt2.py
@@ -133,6 +133,10 @@ class SMTContext:
         #    if h.op != "=":
         #        h.quotient_ring_inject(B)
 
+        # The negated succedents below aren't part of the original antecedent
+
+        num_antecedent = len(self.antecedent)
+
         if len(self.succedent) > 1:
             self.succedent.reverse()
             for h in self.succedent[1:]:
@@ -168,7 +172,7 @@ class SMTContext:
         hide_succedent = []
 
         i = 0
-        for h in self.antecedent:
+        for h in self.antecedent[:num_antecedent]:
             if h in hyps_to_hide:
                 hide_antecedent += [i]
             i += 1
-- 
2.43.0

