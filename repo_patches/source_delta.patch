From 264ee45979e6854b6eaf0ff7ddcf043b340e5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 01/59] fix: linear program no longer shares its data with the
 arrays it was built from

---
 pytimize/programs/_linear.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 94e9de5..ab07536 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1663,10 +1663,7 @@ class LinearProgram:
             if not np.issubdtype(source.dtype, np.number):
                 raise ValueError()
 
-            if not np.issubdtype(source.dtype, np.floating):
-                source = source.astype(float)
-
-            return source
+            return source.astype(float)
 
         if isinstance(source, list):
             length = None
-- 
2.43.0


From f8380dbca68fa56f0c8fa1fd034eb72b36ecdab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 02/59] fix: simplex leaves the program untouched when it stops
 with an exception

---
 pytimize/programs/_linear.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index ab07536..c6ca701 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1072,10 +1072,6 @@ class LinearProgram:
         certificate = None
         updated_lp = None
         counter = 0
-        negative_indices = np.where(self._b < 0)
-
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
 
         show_steps and self.__append_to_steps(("5.02", counter))
         show_steps and self.__append_to_steps(("5.01", self))
@@ -1099,15 +1095,11 @@ class LinearProgram:
             certificate = (
                 np.linalg.inv(self._A[:, converted_basis].T) @ self._c[converted_basis]
             )
-            certificate[negative_indices] *= -1
 
             show_steps and self.__append_to_steps(("5.03", solution))
             show_steps and self.__append_to_steps(("5.04", basis))
             show_steps and self.__append_to_steps(("5.06", certificate))
 
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
-
         return solution, basis, certificate
 
     def simplex_iteration(
-- 
2.43.0


From e38bdea2f55d9840eee11db0b3dbd707b9aff8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 03/59] fix: graph_polyhedron neither changes the program nor
 ends the process

---
 pytimize/programs/_linear.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index c6ca701..ae82950 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1392,11 +1392,12 @@ class LinearProgram:
             copy_b, [graph_limit, -graph_limit, graph_limit, -graph_limit]
         )
 
-        num_inequalities = len(self._inequality_indices)
-        self._inequality_indices[num_inequalities] = "<="
-        self._inequality_indices[num_inequalities + 1] = ">="
-        self._inequality_indices[num_inequalities + 2] = "<="
-        self._inequality_indices[num_inequalities + 3] = ">="
+        inequality_indices = self._inequality_indices.copy()
+        num_inequalities = len(inequality_indices)
+        inequality_indices[num_inequalities] = "<="
+        inequality_indices[num_inequalities + 1] = ">="
+        inequality_indices[num_inequalities + 2] = "<="
+        inequality_indices[num_inequalities + 3] = ">="
 
         A = np.array([[0, 0], [0, 0]])
         b = np.array([0, 0])
@@ -1434,10 +1435,10 @@ class LinearProgram:
             for i in range(len(copy_A)):
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
-                if self._inequality_indices[i] == "<=":
+                if inequality_indices[i] == "<=":
                     if value > copy_b[i] and not math.isclose(value, copy_b[i]):
                         valid_point = False
-                elif self._inequality_indices[i] == ">=":
+                elif inequality_indices[i] == ">=":
                     if value < copy_b[i] and not math.isclose(value, copy_b[i]):
                         valid_point = False
 
@@ -1449,8 +1450,7 @@ class LinearProgram:
         # if no points remain, then none of the points found satisfy all inequalities;
         # thus the system is inconsistent
         if len(points) == 0:
-            print("Error: inconsistent system of equations")
-            exit()
+            raise ArithmeticError("The system of inequalities is inconsistent.")
 
         # sort points so the polygon is drawn properly
         # method from https://stackoverflow.com/questions/10846431/ordering-shuffled-points-that-can-be-joined-to-form-a-polygon-in-python/10852917
@@ -1468,12 +1468,6 @@ class LinearProgram:
         # prepare the points for plotting
         xs, ys = zip(*points)
 
-        # remove added boundary inequalities so data isn't mutated
-        del self._inequality_indices[num_inequalities + 3]
-        del self._inequality_indices[num_inequalities + 2]
-        del self._inequality_indices[num_inequalities + 1]
-        del self._inequality_indices[num_inequalities]
-
         # plot and display the feasible region
         plt.figure()
         plt.plot(xs, ys)
-- 
2.43.0


From 7fb238d6820827f7238d5bf66be64c55031ac680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 04/59] fix: graph_polyhedron keeps fractional coefficients and
 skips parallel lines

---
 pytimize/programs/_linear.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index ae82950..45cfdcd 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1399,8 +1399,8 @@ class LinearProgram:
         inequality_indices[num_inequalities + 2] = "<="
         inequality_indices[num_inequalities + 3] = ">="
 
-        A = np.array([[0, 0], [0, 0]])
-        b = np.array([0, 0])
+        A = np.zeros((2, 2))
+        b = np.zeros(2)
 
         shape = copy_A.shape
         points = []
@@ -1416,11 +1416,9 @@ class LinearProgram:
                     b[0] = copy_b[i]
                     b[1] = copy_b[j]
 
-                    # if both lines are horizontal/vertical, skip point
+                    # if the lines are parallel, skip point
                     # (these lines will never intersect and thus solving will cause an error)
-                    if A[0][0] == 0 and A[1][0] == 0:
-                        continue
-                    elif A[0][1] == 0 and A[1][1] == 0:
+                    if Comparator.is_close_to_zero(np.linalg.det(A)):
                         continue
 
                     point = np.linalg.solve(A, b)
-- 
2.43.0


From e13f8b7c5d74db5005ca7672be12b9e099ba9601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 05/59] fix: clear_steps returns a cleared copy instead of
 recursing forever

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 45cfdcd..61a884e 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1628,7 +1628,7 @@ class LinearProgram:
 
         """
         if not in_place:
-            return self.copy().clear_steps()
+            return self.copy().clear_steps(True)
 
         self._steps = []
 
-- 
2.43.0


From 4fdfa863cd91f125b5f8df0596c752d48a5d738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 06/59] fix: is_feasible_basic_solution accepts vectors of the
 right size

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 61a884e..28d7a34 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -620,7 +620,7 @@ class LinearProgram:
         """
         x = self.__to_ndarray(x)
 
-        if not self.__is_vector_of_size(x, self._c):
+        if not self.__is_vector_of_size(x, self._c.shape[0]):
             raise ValueError()
 
         return Comparator.is_close_compare(x, ">=", 0) and self.is_basic_solution(
-- 
2.43.0


From 629809b9b7024809d8b9ae9ce4e400f72186f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 07/59] fix: is_canonical_form_for inspects the columns of the
 given basis

---
 pytimize/programs/_linear.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 28d7a34..5da9bb9 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -532,14 +532,15 @@ class LinearProgram:
 
         """
         basis = self.__array_like_to_list(basis)
+
+        if not self.is_basis(basis):
+            return False
+
         basis = self.__convert_indices(basis, 0, self._c.shape[0])
 
-        return all(
-            [
-                self.is_basis(basis),
-                np.allclose(self._A[basis], np.eye(len(basis))),
-                np.allclose(self._c[basis], 0),
-            ]
+        return bool(
+            np.allclose(self._A[:, basis], np.eye(len(basis)))
+            and np.allclose(self._c[basis], 0)
         )
 
     def optimal_value(self):
-- 
2.43.0


From 40f87135fccb24b76c863d329919db63b70a6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 08/59] fix: solve only starts simplex from a feasible basis

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 5da9bb9..b826d01 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -927,7 +927,7 @@ class LinearProgram:
 
         if columns >= rows:
             basis_candidate = [i for i in range(rows + 1, columns + 1)]
-            if sef.is_basis(basis_candidate):
+            if sef.is_basis(basis_candidate) and sef.is_basis_feasible(basis_candidate):
                 try:
                     solution = sef.simplex(basis_candidate, show_steps)[0]
 
-- 
2.43.0


From 5eb34d7100155a32f6a0227ef00ce58bf30b00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 09/59] fix: comparing linear programs no longer raises

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index b826d01..dec3c20 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -393,9 +393,9 @@ class LinearProgram:
     def __eq__(self, other: "LinearProgram") -> bool:
         # TODO Work in progress
         return (
-            other._A == self._A
-            and other._b == self._b
-            and other._c == self._c
+            np.array_equal(other._A, self._A)
+            and np.array_equal(other._b, self._b)
+            and np.array_equal(other._c, self._c)
             and other._z == self._z
             and other._objective == self._objective
             and other._inequality_indices == self._inequality_indices
-- 
2.43.0


From 0919b35554b09a4281b7423f2c869807f1be895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 10/59] fix: add_variable checks the new column before changing
 the program

---
 pytimize/programs/_linear.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index dec3c20..a58dcad 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -501,6 +501,10 @@ class LinearProgram:
         if free and negative:
             raise ValueError()
 
+        # TODO validation checks are needed
+        A = np.c_[self._A, column if column is not None else [0] * self._A.shape[0]]
+        c = np.r_[self._c, coefficient]
+
         if free:
             self._free_variables.append(self._c.shape[0])
             self._is_sef = False
@@ -508,11 +512,8 @@ class LinearProgram:
             self._negative_variables.append(self._c.shape[0])
             self._is_sef = False
 
-        # TODO validation checks are needed
-        self._A = np.c_[
-            self._A, column if column is not None else [0] * self._A.shape[0]
-        ]
-        self._c = np.r_[self._c, coefficient]
+        self._A = A
+        self._c = c
 
         return self
 
-- 
2.43.0


From ed728e448ee211b86360cda7d65cc9a9aa4a9503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 11/59] fix: a program without constraints can be printed

---
 pytimize/programs/_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a58dcad..91ec39d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -369,7 +369,8 @@ class LinearProgram:
                 output += " " * spaces
 
             output += "]\n"
-            positive = self.positive_variables
+
+        positive = self.positive_variables
 
         if len(self._negative_variables) == shape[1]:
             output += "x ≤ 0\n"
-- 
2.43.0


From 7e3d4d09c63ec9890b0f99fe702e71b715c95631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 12/59] fix: branch and bound keeps the variable restrictions
 in its subproblems

---
 pytimize/programs/_integer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index d47d31a..06818d7 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -107,7 +107,14 @@ class IntegerProgram(LinearProgram):
                 new_b = np.append(copy_b, np.floor(value))
                 new_inequalities.append("<=")
                 lp_lower = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 lower_result = self.__branch(lp_lower)
@@ -116,7 +123,14 @@ class IntegerProgram(LinearProgram):
                 new_b[len(lp.b)] = np.ceil(value)
                 new_inequalities[len(new_inequalities) - 1] = ">="
                 lp_higher = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 higher_result = self.__branch(lp_higher)
-- 
2.43.0


From e9d759b90794ca899a4e353c1fde1bf342364402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 13/59] fix: branch and bound returns the smaller value when
 minimizing

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 06818d7..c0243b3 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -150,7 +150,7 @@ class IntegerProgram(LinearProgram):
                     if higher_result[1] > lower_result[1]:
                         return higher_result
                     return lower_result
-                elif higher_result[1] > lower_result[1]:
+                elif higher_result[1] < lower_result[1]:
                     return higher_result
                 return lower_result
 
-- 
2.43.0


From 2c7863106c6d7a90fa13d6fb2f91a71a8aed9fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 14/59] fix: integral variables are numbered from one like all
 other variables

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c0243b3..e9c1d20 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -88,7 +88,7 @@ class IntegerProgram(LinearProgram):
             # if value is not integer, make sure it is has the integral constraint before branching - not working atm
             if (
                 self._integral_variables is not None
-                and position not in self._integral_variables
+                and position + 1 not in self._integral_variables
             ):
                 position += 1
                 continue
-- 
2.43.0


From 7eee7b831c47871398500e09c0067995c9ffb641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 15/59] fix: copying an integer program keeps its integrality

---
 pytimize/programs/_integer.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index e9c1d20..c6ea000 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -195,6 +195,24 @@ class IntegerProgram(LinearProgram):
         """
         pass
 
+    def copy(self) -> "IntegerProgram":
+        p = IntegerProgram(
+            self._A,
+            self._b,
+            self._c,
+            self._z,
+            self._objective,
+            self.inequalities,
+            self.free_variables,
+            self.negative_variables,
+            copy.copy(self._integral_variables),
+        )
+
+        p._steps = self._steps.copy()
+        p._is_sef = self._is_sef
+
+        return p
+
     def relax(self) -> LinearProgram:
         """
         Creates the corresponding linear program relaxation.
-- 
2.43.0


From a2668849ffed537351c62dfce618847bb9a62965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 16/59] fix: an integer program no longer shares the given
 integral variables

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c6ea000..1a7d88f 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -28,7 +28,7 @@ class IntegerProgram(LinearProgram):
             A, b, c, z, objective, inequalities, free_variables, negative_variables
         )
 
-        self._integral_variables = integral_variables
+        self._integral_variables = copy.copy(integral_variables)
 
     def __repr__(self) -> str:  # TODO add integral constraint
         output = super().__repr__().rstrip("\n")
-- 
2.43.0


From 0099eaa08f592dfa7befbb7aca790d8747493f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 17/59] fix: a point is feasible for an integer program only if
 it is integral

---
 pytimize/programs/_integer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 1a7d88f..be4e558 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -235,6 +235,11 @@ class IntegerProgram(LinearProgram):
 
     def is_feasible(self, x, show_steps: bool = True) -> bool:
         result = super().is_feasible(x, show_steps)
-        return result
+        indices = self._integral_variables
+
+        if indices is None:
+            indices = range(1, self._c.shape[0] + 1)
+
+        return result and all(Comparator.is_integer(x[i - 1]) for i in indices)
 
     # TODO override evaluate of base to take consideration of integers
-- 
2.43.0


From b72e24f72d59c18c36b048251b6f196eb6004a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 18/59] fix: unconstrained programs honour the objective and
 reject unknown ones

---
 pytimize/programs/_unconstrained.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 3b53e2e..2995d80 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -22,10 +22,11 @@ class UnconstrainedProgram:
             The objective of the program. Must be either `max` or `min`.
 
         """
-        if objective == "max":
-            self._f = lambda x: -f(x)
-        self._f = f
+        if not objective in ["min", "max"]:
+            raise ValueError("Objective must be either `min` or `max`.")
+
         self._minimize = objective == "min"
+        self._f = f if self._minimize else lambda x: -f(x)
 
     def steepest_descent(
         self,
@@ -66,10 +67,11 @@ class UnconstrainedProgram:
 
         """
         for _ in range(int(max_iteration)):
-            d = -df(x)
+            gradient = df(x) if self._minimize else -df(x)
+            d = -gradient
             a = alpha
 
-            while self._f(x + a * d) > self._f(x) + c * a * df(x) @ d:
+            while self._f(x + a * d) > self._f(x) + c * a * gradient @ d:
                 a *= p
 
             x += a * d
@@ -77,7 +79,7 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
 
     def newton_method(
         self,
@@ -116,4 +118,4 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
-- 
2.43.0


From 2be4ef5a7cf13c722e6a8eb7b23f696fbe82b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 19/59] fix: unconstrained solvers leave the starting point
 untouched

---
 pytimize/programs/_unconstrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 2995d80..b26a431 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -74,7 +74,7 @@ class UnconstrainedProgram:
             while self._f(x + a * d) > self._f(x) + c * a * gradient @ d:
                 a *= p
 
-            x += a * d
+            x = x + a * d
 
             if np.linalg.norm(df(x)) <= tolerance:
                 break
@@ -113,7 +113,7 @@ class UnconstrainedProgram:
 
         for _ in range(int(max_iteration)):
             d = np.linalg.solve(d2f(x), -df(x))
-            x += d
+            x = x + d
 
             if np.linalg.norm(df(x)) <= tolerance:
                 break
-- 
2.43.0


From 5ff92335314d456d62eef47340a2730034c6dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 20/59] fix: linear parser rejects `|` as a sign, variable zero
 and trailing newlines

---
 pytimize/parsers/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index d71e7ed..75d2820 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -42,6 +42,6 @@ class LinearParser:
 
     @staticmethod
     def validate_expression(candidate):
-        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+|-]\d+(?:\.\d+)?x_\d+)*$")
+        validation = re.compile(r"-?\d+(?:\.\d+)?x_0*[1-9]\d*(?:[+-]\d+(?:\.\d+)?x_0*[1-9]\d*)*")
 
-        return validation.match(candidate) is not None
+        return validation.fullmatch(candidate) is not None
-- 
2.43.0


From 849d21688437e42f7f07bd5c2ab0e5e2c8a6a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 21/59] fix: graph parser rejects expressions that end in a
 newline

---
 pytimize/parsers/_graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytimize/parsers/_graph.py b/pytimize/parsers/_graph.py
index 84a0d49..921fe14 100644
--- a/pytimize/parsers/_graph.py
+++ b/pytimize/parsers/_graph.py
@@ -38,13 +38,13 @@ class GraphParser:
         )
         result = -1
 
-        if validation_one.match(candidate) is not None:
+        if validation_one.fullmatch(candidate) is not None:
             result = 0
-        elif validation_two.match(candidate) is not None:
+        elif validation_two.fullmatch(candidate) is not None:
             result = 1
-        elif validation_three.match(candidate) is not None:
+        elif validation_three.fullmatch(candidate) is not None:
             result = 2
-        elif validation_four.match(candidate) is not None:
+        elif validation_four.fullmatch(candidate) is not None:
             result = 3
 
         return result
-- 
2.43.0


From 8569a1bd2e26c62dbd4905309b41003240c39ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 22/59] fix: removing an edge also removes its weight

---
 pytimize/graphs/_undirected.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5ceebbe..bde90c8 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -141,6 +141,7 @@ class UndirectedGraph:
 
         self._graph[edge[0]].remove(edge[1])
         self._graph[edge[1]].remove(edge[0])
+        del self._edges[tuple(sorted(edge))]
 
     def has_edge(self, edge: Tuple[str, str]) -> bool:
         """
-- 
2.43.0


From 729e8e70808d2e2e1e49829d7747645f1ee43ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 23/59] fix: the adjacency of an undirected graph is not shared
 with its copies

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index bde90c8..5fa8eb1 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -734,7 +734,7 @@ class UndirectedGraph:
       vertices that are connected to that vertex.
 
     """
-        return self._graph.copy()
+        return {vertex: set(adjacent) for vertex, adjacent in self._graph.items()}
 
     @property
     def vertices(self) -> Dict[str, float]:
-- 
2.43.0


From 1e90545cdb04e7ce6204eb2f5a68029546ee03f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 24/59] fix: weights of an undirected graph cannot be set to
 negative values

---
 pytimize/graphs/_undirected.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5fa8eb1..5802117 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -203,12 +203,18 @@ class UndirectedGraph:
         return vertex in self._vertices
 
     def set_edge_weight(self, edge: Tuple[str, str], weight: float) -> None:
+        if weight < 0:
+            raise ValueError("Weight cannot be negative.")
+
         if not self.has_edge(edge):
             raise ValueError("The given edge is not in graph.")
 
         self._edges[tuple(sorted(edge))] = weight
 
     def set_vertex_weight(self, vertex: str, weight: float) -> None:
+        if weight < 0:
+            raise ValueError("Weight cannot be negative.")
+
         if not self.has_vertex(vertex):
             raise ValueError("The given vertex is not in graph.")
 
-- 
2.43.0


From 65a4fd8192411b8ac80fac34df3862b5965cd1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 25/59] fix: a cut accepts a vertex name of any length

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5802117..2a4513c 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -391,7 +391,9 @@ class UndirectedGraph:
       The set of edges that satisfies the above condition.
 
     """
-        if not isinstance(vertices, set):
+        if isinstance(vertices, str):
+            vertices = {vertices}
+        elif not isinstance(vertices, set):
             vertices = set(vertices)
 
         return set(
-- 
2.43.0


From 27dac3bc276ed76aaa43eb84a4d1066d05377843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 26/59] fix: is_cyclic only reports actual cycles

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 2a4513c..616392a 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -535,7 +535,7 @@ class UndirectedGraph:
                     return True
 
                 visited.add(current)
-                queue.extend(self._graph[current])
+                queue.extend(self._graph[current].difference(visited))
 
             unexplored = unexplored.difference(visited)
 
-- 
2.43.0


From 873eea0575ec2ccbea7779be8f627cd96af11003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 27/59] fix: partition returns the connected components

---
 pytimize/graphs/_undirected.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 616392a..fd92cc8 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -585,15 +585,14 @@ class UndirectedGraph:
                 if current in visited:
                     continue
 
-                for vertex, connections in self._graph[current].items():
-                    for connection in connections:
-                        edge = tuple(sorted((vertex, connection)))
+                for connection in self._graph[current]:
+                    edge = tuple(sorted((current, connection)))
 
-                        subedges.setdefault(edge, self._edges[edge])
+                    subedges.setdefault(edge, self._edges[edge])
 
                 visited.add(current)
                 queue.extend(self._graph[current])
-                subgraph.setdefault(current, self._graph.copy())
+                subgraph.setdefault(current, set(self._graph[current]))
                 subvertices.setdefault(current, self._vertices[current])
 
             g = UndirectedGraph()
-- 
2.43.0


From fdc3badc57b9038edcdea955b0ab2762e97e2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 28/59] fix: dfs visits vertices depth first

---
 pytimize/graphs/_undirected.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index fd92cc8..e2019cb 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -487,13 +487,15 @@ class UndirectedGraph:
         queue = deque([start])
 
         while len(queue) > 0:
-            current = queue.popleft()
+            current = queue.popleft() if method == "bfs" else queue.pop()
 
             if current in visited:
                 continue
 
+            adjacent = sorted(self._graph[current], key=order)
+
             visited.add(current)
-            queue.extend(sorted(self._graph[current], key=order))
+            queue.extend(adjacent if method == "bfs" else reversed(adjacent))
 
             yield current
 
-- 
2.43.0


From fe0513a4800543198ca39e36da070e1d8617b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 29/59] fix: node names are never split into characters

---
 pytimize/graphs/_directed.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index b0b7b67..e768b1c 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -195,7 +195,9 @@ class DirectedGraph:
             The list of arcs that satisfies the above condition.
 
         """
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
         return set(
@@ -220,10 +222,12 @@ class DirectedGraph:
 
         """
 
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
-        return list(
+        return set(
             filter(
                 lambda arc: arc[1] in nodes and arc[0] not in nodes, self._arcs.keys()
             )
-- 
2.43.0


From 3fef86d4e7a561ee6df882b71af4615cb33bbc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 30/59] fix: add_arc checks the demands before adding the arc
 and accepts a single demand

---
 pytimize/graphs/_directed.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index e768b1c..759bdae 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -97,9 +97,6 @@ class DirectedGraph:
         if arc[0] == arc[1]:
             raise ValueError("Cannot create an arc with the same endpoints.")
 
-        self._graph.setdefault(arc[0], set()).add(arc[1])
-        self._arcs.setdefault(arc, weight)
-
         a_exists = self.has_node(arc[0])
         b_exists = self.has_node(arc[1])
 
@@ -111,10 +108,13 @@ class DirectedGraph:
 
             self.add_node(arc[0], demands[0] if demands else 0)
             self.add_node(arc[1], demands[1] if demands else 0)
-        elif not a_exists:
-            self.add_node(arc[0], demands[0] if demands else 0)
-        elif not b_exists:
-            self.add_node(arc[1], demands[1] if demands else 0)
+        elif not a_exists or not b_exists:
+            demand = demands[0] if isinstance(demands, tuple) else demands
+
+            self.add_node(arc[1] if a_exists else arc[0], demand if demand else 0)
+
+        self._graph[arc[0]].add(arc[1])
+        self._arcs.setdefault(arc, weight)
 
     def add_node(self, node, demand=0):
         """
-- 
2.43.0


From 3b2f84af07eb34b537bd03f7d4c34dd96310fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 31/59] fix: preflow_push works on digraphs without
 intermediate nodes

---
 pytimize/graphs/_directed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 759bdae..c113306 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -461,8 +461,8 @@ class DirectedGraph:
             else:
                 index += 1
 
-            value = sum(flow[arc] for arc in self.cut(source))
-            value -= sum(flow[arc] for arc in self.ncut(source))
+        value = sum(flow[arc] for arc in self.cut(source))
+        value -= sum(flow[arc] for arc in self.ncut(source))
 
         return value, flow
 
-- 
2.43.0


From 71b73c55c266381eeec97b09d1d013260f24e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 32/59] fix: combining expressions leaves the operands
 unchanged

---
 pytimize/formulations/linear/_equation.py | 25 ++++++++++-------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 50b75f1..d67ca36 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -13,29 +13,26 @@ class LinearEquation:
         self._constant = constant
 
     def __neg__(self) -> "LinearEquation":
-        self._terms = {
-            label: -coefficient for label, coefficient in self._terms.items()
-        }
+        terms = {label: -coefficient for label, coefficient in self._terms.items()}
 
-        return self
+        return LinearEquation(terms, self._constant)
 
     def __pos__(self) -> "LinearEquation":
         return self
 
     def __add__(self, other) -> "LinearEquation":
+        terms = self._terms.copy()
+        constant = self._constant
+
         if isinstance(other, LinearEquation):
             for label, coefficient in other.terms.items():
-                self._terms.setdefault(label, 0)
-
-                self._terms[label] += coefficient
+                terms[label] = terms.get(label, 0) + coefficient
         elif isinstance(other, float) or isinstance(other, int):
-            self._constant += other
+            constant += other
         elif hasattr(other, "key"):
-            self._terms.setdefault(other.key, 0)
+            terms[other.key] = terms.get(other.key, 0) + 1
 
-            self._terms[other.key] += 1
-
-        return self
+        return LinearEquation(terms, constant)
 
     def __radd__(self, other) -> "LinearEquation":
         return self + other
@@ -54,11 +51,11 @@ class LinearEquation:
 
     def __mul__(self, other: float) -> "LinearEquation":
         if isinstance(other, float) or isinstance(other, int):
-            self._terms = {
+            terms = {
                 label: coefficient * other for label, coefficient in self._terms.items()
             }
 
-            return self
+            return LinearEquation(terms, self._constant)
 
     def __rmul__(self, other) -> "LinearEquation":
         return self * other
-- 
2.43.0


From 7d1dc80febf12ef866943c7477410613d07391c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 33/59] fix: negating, scaling and adding expressions accounts
 for their constants

---
 pytimize/formulations/linear/_equation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index d67ca36..4a33cbb 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -15,7 +15,7 @@ class LinearEquation:
     def __neg__(self) -> "LinearEquation":
         terms = {label: -coefficient for label, coefficient in self._terms.items()}
 
-        return LinearEquation(terms, self._constant)
+        return LinearEquation(terms, -self._constant)
 
     def __pos__(self) -> "LinearEquation":
         return self
@@ -27,6 +27,8 @@ class LinearEquation:
         if isinstance(other, LinearEquation):
             for label, coefficient in other.terms.items():
                 terms[label] = terms.get(label, 0) + coefficient
+
+            constant += other.constant
         elif isinstance(other, float) or isinstance(other, int):
             constant += other
         elif hasattr(other, "key"):
@@ -55,7 +57,7 @@ class LinearEquation:
                 label: coefficient * other for label, coefficient in self._terms.items()
             }
 
-            return LinearEquation(terms, self._constant)
+            return LinearEquation(terms, self._constant * other)
 
     def __rmul__(self, other) -> "LinearEquation":
         return self * other
-- 
2.43.0


From 8144f8863cc8b5fffa301b49c71eedb7380d33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 34/59] fix: unsupported operands in expressions raise instead
 of being ignored

---
 pytimize/formulations/linear/_equation.py | 4 ++++
 pytimize/formulations/linear/_variable.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 4a33cbb..97a95dd 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -33,6 +33,8 @@ class LinearEquation:
             constant += other
         elif hasattr(other, "key"):
             terms[other.key] = terms.get(other.key, 0) + 1
+        else:
+            return NotImplemented
 
         return LinearEquation(terms, constant)
 
@@ -59,6 +61,8 @@ class LinearEquation:
 
             return LinearEquation(terms, self._constant * other)
 
+        return NotImplemented
+
     def __rmul__(self, other) -> "LinearEquation":
         return self * other
 
diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index 312f989..35dde08 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -38,6 +38,8 @@ class Variable:
         if isinstance(other, float) or isinstance(other, int):
             return LinearEquation({self._key: other})
 
+        return NotImplemented
+
     def __rmul__(self, other: float) -> LinearEquation:
         return self * other
 
-- 
2.43.0


From 33d7c66540b4f3e278bfd1e784c9d3b74f4747dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 35/59] fix: expressions without variables can be compared to
 other expressions

---
 pytimize/formulations/linear/_equation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 97a95dd..959d7d6 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -95,14 +95,14 @@ class LinearEquation:
     def _broadcast_subtract(
         self, array_one: Optional[np.ndarray], array_two: Optional[np.ndarray]
     ) -> Optional[np.ndarray]:
-        if array_one is None:
-            return array_two
-
         if array_two is None:
             return array_one
 
         array_two = -array_two
 
+        if array_one is None:
+            return array_two
+
         if array_one.shape[0] == array_two.shape[0]:
             return array_one + array_two
 
-- 
2.43.0


From 5f146322b1b66c64f2b0073f92d440c2f0c2ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 36/59] fix: expressions can be compared to variables

---
 pytimize/formulations/linear/_equation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 959d7d6..26c04f5 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -83,6 +83,8 @@ class LinearEquation:
     ) -> LinearConstraint:
         if isinstance(other, float) or isinstance(other, int):
             other = LinearEquation({}, other)
+        elif hasattr(other, "equation"):
+            other = other.equation
 
         constant = other.constant - self._constant
         coefficients = self._broadcast_subtract(self.coefficients, other.coefficients)
-- 
2.43.0


From e78c769c67f1f8268c1fbdebdc2c6c9fcc408871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 37/59] fix: objectives may use more variables than the
 constraints

---
 pytimize/formulations/linear/_objective.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 1102556..e30ca8b 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -24,6 +24,10 @@ class ObjectiveFunction:
 
         inequalities = []
         length = max(constraint.coefficients.shape[0] for constraint in constraints)
+
+        if self._c is not None:
+            length = max(length, self._c.shape[0])
+
         A = np.empty(length)
         b = np.empty(1)
 
-- 
2.43.0


From 4ab5acadcea303180dd565c3089ba19448aa2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 38/59] fix: rejected variable constraints are not kept

---
 pytimize/formulations/linear/_abstract.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index 8af7a6b..fa9271f 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -34,25 +34,30 @@ class AbstractLinearProgram:
         return getattr(self.program, key)
 
     def where(self, *constraints: VariableConstraint) -> "AbstractLinearProgram":
+        positive_variables = self._positive_variables.copy()
+        negative_variables = self._negative_variables.copy()
+
         for constraint in constraints:
             self._add_variable_constraint(
-                constraint.positive_variables, self._positive_variables
+                constraint.positive_variables, positive_variables
             )
             self._add_variable_constraint(
-                constraint.negative_variables, self._negative_variables
+                constraint.negative_variables, negative_variables
             )
 
-        positive_set = set(self._positive_variables)
-        negative_set = set(self._negative_variables)
+        positive_set = set(positive_variables)
+        negative_set = set(negative_variables)
 
-        if not len(positive_set) == len(self._positive_variables) or not len(
+        if not len(positive_set) == len(positive_variables) or not len(
             negative_set
-        ) == len(self._negative_variables):
+        ) == len(negative_variables):
             raise ValueError("Duplicated variable constraints detected.")
 
         if len(positive_set.intersection(negative_set)) > 0:
             raise ValueError("Variable cannot be both positive and negative.")
 
+        self._positive_variables = positive_variables
+        self._negative_variables = negative_variables
         self._recompile = True
 
         return self
-- 
2.43.0


From 1fc00471181d471be31689fa25612e81657f06b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 39/59] fix: random traversal yields the vertices

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index e2019cb..5255e43 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -481,7 +481,9 @@ class UndirectedGraph:
 
             random.shuffle(vertices)
 
-            return iter(vertices)
+            yield from vertices
+
+            return
 
         visited = set()
         queue = deque([start])
-- 
2.43.0


From 99b48615a97e16cb57ab31ffe2098f77298b20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 40/59] fix: basic solutions of unsorted bases put every
 component in its place

---
 pytimize/programs/_linear.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 91ec39d..e971cc8 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1690,8 +1690,6 @@ class LinearProgram:
         components = np.linalg.inv(self._A[:, basis]) @ self._b
         solution = np.zeros(self._c.shape[0])
 
-        basis.sort()  # TODO copy? To prevent reference
-
         for index, value in zip(basis, components):
             solution[index] = value
 
-- 
2.43.0


From 09d59a39204cdc0621491c063284a2033d7bbc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:14 +0000
Subject: [PATCH 41/59] fix: converting a minimization program to SEF negates
 the constant with the objective

---
 pytimize/programs/_linear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index e971cc8..c0d81a4 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1573,6 +1573,7 @@ class LinearProgram:
 
         if self._objective == "min":
             self._c = -self._c
+            self._z = -self._z
             self._objective = "max"
 
             show_steps and self.__append_to_steps(["3.02", ("3.03", -self._c, self._c)])
-- 
2.43.0


From e2a9c27696d0a30ac3b0022bc6fa45149fa06084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:14 +0000
Subject: [PATCH 42/59] fix: the dual keeps the constant of the objective

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index c0d81a4..a897eed 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -862,7 +862,7 @@ class LinearProgram:
                 inequality_indices[i] = ">=" if objective == "max" else "<="
 
         objective = "min" if objective == "max" else "max"
-        dual = LinearProgram(self._A.T, self._c, self._b, 0, objective)
+        dual = LinearProgram(self._A.T, self._c, self._b, self._z, objective)
 
         dual._inequality_indices = inequality_indices
         dual._free_variables = free_variables
-- 
2.43.0


From 428a93e3b6a42372d8622cea6375ff51745f3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 43/59] fix: verify_unboundedness records no steps when told
 not to

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a897eed..e9f0db1 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1251,7 +1251,7 @@ class LinearProgram:
         certificate = self.__to_ndarray(certificate)
         x = self.__to_ndarray(x)
 
-        if not self.is_feasible(x):
+        if not self.is_feasible(x, show_steps):
             return False
 
         if Comparator.is_close_compare(self._c @ certificate, "<=", 0):
-- 
2.43.0


From 2ae591565f9df83dc9c8fcbd933aa00109ecab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 44/59] fix: solve records no steps for a program in SEF when
 told not to

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index e9f0db1..0845bb1 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -921,7 +921,7 @@ class LinearProgram:
 
         """
         if self._is_sef:
-            return self.two_phase_simplex()[0]
+            return self.two_phase_simplex(show_steps)[0]
 
         sef = self.to_sef(show_steps)
         rows, columns = sef.A.shape
-- 
2.43.0


From 26367060821a23f289b9adb02cb643e25c252d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 45/59] fix: a single variable can be the objective of a
 formulation

---
 pytimize/formulations/linear/_objective.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index e30ca8b..b25898d 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -10,6 +10,9 @@ from ._utilities import pad_right
 
 class ObjectiveFunction:
     def __init__(self, equation: LinearEquation, objective: str):
+        if hasattr(equation, "equation"):
+            equation = equation.equation
+
         self._c = equation.coefficients
         self._z = equation.constant
         self._objective = objective
-- 
2.43.0


From 03ce31e9e4b770577a13277c58ad2a2c194339c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 46/59] fix: multiplying an expression by a variable no longer
 recurses forever

---
 pytimize/formulations/linear/_equation.py | 2 +-
 pytimize/formulations/linear/_variable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 26c04f5..38d68ab 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -64,7 +64,7 @@ class LinearEquation:
         return NotImplemented
 
     def __rmul__(self, other) -> "LinearEquation":
-        return self * other
+        return self.__mul__(other)
 
     def __imult__(self, other) -> "LinearEquation":
         return self * other
diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index 35dde08..7a055ec 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -41,7 +41,7 @@ class Variable:
         return NotImplemented
 
     def __rmul__(self, other: float) -> LinearEquation:
-        return self * other
+        return self.__mul__(other)
 
     def __imul__(self, other: float) -> LinearEquation:
         return self * other
-- 
2.43.0


From cc21bdf44c63345d5652be701053ad94c1032a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 47/59] fix: comparing all variables to an expression is
 refused instead of becoming a sign restriction

---
 pytimize/formulations/linear/_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index 7a055ec..2919b66 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -18,13 +18,13 @@ class MetaVariable(type):
         return LinearEquation({key: 1})
 
     def __le__(self, other: int) -> VariableConstraint:
-        if not other == 0:
+        if not isinstance(other, (int, float)) or not other == 0:
             raise ValueError()
 
         return VariableConstraint(negative_variables=[])
 
     def __ge__(self, other: int) -> VariableConstraint:
-        if not other == 0:
+        if not isinstance(other, (int, float)) or not other == 0:
             raise ValueError()
 
         return VariableConstraint(positive_variables=[])
-- 
2.43.0


From 401f63d5545ba88f0fdd6930261b360fecfe25f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 48/59] fix: a digraph refusing an arc for its demands keeps
 its nodes as they were

---
 pytimize/graphs/_directed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index c113306..a6b8d32 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -106,8 +106,10 @@ class DirectedGraph:
                     "Demands must be a tuple of floats when both endpoints are new nodes."
                 )
 
-            self.add_node(arc[0], demands[0] if demands else 0)
-            self.add_node(arc[1], demands[1] if demands else 0)
+            demand_a, demand_b = (demands[0], demands[1]) if demands else (0, 0)
+
+            self.add_node(arc[0], demand_a)
+            self.add_node(arc[1], demand_b)
         elif not a_exists or not b_exists:
             demand = demands[0] if isinstance(demands, tuple) else demands
 
-- 
2.43.0


From 7eff17056e7a4e4f9360c4777ddf162ad8d16672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 49/59] fix: the linear parser rejects invalid expressions with
 ValueError

---
 pytimize/parsers/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index 75d2820..2d0dafb 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -16,7 +16,7 @@ class LinearParser:
                 index = int(index) - 1
 
                 if index in data:
-                    raise Exception()
+                    raise ValueError("Each variable can only appear once.")
                 else:
                     data[index] = float(("-" if sign == "-" else "") + coefficient)
 
@@ -30,7 +30,7 @@ class LinearParser:
 
             return result
         else:
-            raise Exception()
+            raise ValueError("Invalid expression format.")
 
     @staticmethod
     def parse_multiple(expressions: list, size: int = None):
@@ -38,7 +38,7 @@ class LinearParser:
             if LinearParser.validate_expression(expression):
                 LinearParser.parse(expression, size)
             else:
-                raise Exception()
+                raise ValueError("Invalid expression format.")
 
     @staticmethod
     def validate_expression(candidate):
-- 
2.43.0


From bb428302de05bae0373381d5737714e54a58e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 50/59] fix: gradients can be given as lists

---
 pytimize/programs/_unconstrained.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index b26a431..b90029b 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -67,7 +67,8 @@ class UnconstrainedProgram:
 
         """
         for _ in range(int(max_iteration)):
-            gradient = df(x) if self._minimize else -df(x)
+            gradient = np.asarray(df(x))
+            gradient = gradient if self._minimize else -gradient
             d = -gradient
             a = alpha
 
@@ -112,7 +113,7 @@ class UnconstrainedProgram:
         """
 
         for _ in range(int(max_iteration)):
-            d = np.linalg.solve(d2f(x), -df(x))
+            d = np.linalg.solve(d2f(x), -np.asarray(df(x)))
             x = x + d
 
             if np.linalg.norm(df(x)) <= tolerance:
-- 
2.43.0


From 212acd489a5aeb43cf2123cd13db7904e570081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 51/59] fix: partition lists the components in vertex order,
 not in hash order

---
 pytimize/graphs/_undirected.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5255e43..e631d89 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -573,11 +573,11 @@ class UndirectedGraph:
       List of connected subgraphs.
 
     """
-        unexplored = set(self._vertices.keys())
+        unexplored = list(self._vertices.keys())
         partitions = []
 
         while len(unexplored) > 0:
-            queue = deque([next(iter(unexplored))])
+            queue = deque([unexplored[0]])
             visited = set()
             subgraph = {}
             subedges = {}
@@ -603,7 +603,7 @@ class UndirectedGraph:
             g._graph = subgraph
             g._edges = subedges
             g._vertices = subvertices
-            unexplored = unexplored.difference(visited)
+            unexplored = [vertex for vertex in unexplored if vertex not in visited]
 
             partitions.append(g)
 
-- 
2.43.0


From 7122820a7e8adee3243ceb2b2b0af1438b8eed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 52/59] fix: building a graph from neighbour sets does not
 depend on their hash order

---
 pytimize/graphs/_directed.py   | 2 +-
 pytimize/graphs/_undirected.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index a6b8d32..5beab49 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -38,7 +38,7 @@ class DirectedGraph:
                     if not self.has_node(node):
                         self.add_node(node)
                 else:
-                    for connection in connections:
+                    for connection in sorted(connections):
                         arc = (node, connection)
 
                         if self.has_arc(arc):
diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index e631d89..6f58dbf 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -45,7 +45,7 @@ class UndirectedGraph:
                     if not self.has_vertex(vertex):
                         self.add_vertex(vertex)
                 else:
-                    for connection in connections:
+                    for connection in sorted(connections):
                         edge = vertex, connection
 
                         if self.has_edge(edge):
-- 
2.43.0


From b379c3a66f8f6e7fc553c453a0d293cfc8a4fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 53/59] fix: shortest_path reads neighbours and weights of the
 current graph representation

---
 pytimize/graphs/_undirected.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 6f58dbf..95f7d1b 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -276,11 +276,11 @@ class UndirectedGraph:
             best_edge = None
             edges = set()
 
-            for vertex in visited:
-                for edge in self._graph[vertex]:
-                    if edge[0] not in visited:
-                        edge_hash = self._hash_edge((edge[0], vertex))
-                        slack = edge[1] - (
+            for vertex in sorted(visited):
+                for adjacent in sorted(self._graph[vertex]):
+                    if adjacent not in visited:
+                        edge_hash = tuple(sorted((adjacent, vertex)))
+                        slack = self._edges[edge_hash] - (
                             potential[edge_hash] if edge_hash in potential else 0
                         )
 
@@ -290,10 +290,13 @@ class UndirectedGraph:
 
                         if slack < best_slack:
                             best_slack = slack
-                            best_edge = vertex, edge[0], edge_hash
+                            best_edge = vertex, adjacent, edge_hash
 
                         # print(visited, best_slack)
 
+            if best_edge is None:
+                raise ValueError("Ending vertex cannot be reached.")
+
             for edge_hash in edges:
                 previous = potential.setdefault(edge_hash, 0)
                 potential[edge_hash] = previous + best_slack
-- 
2.43.0


From f1dd1332d3c0f302b01a1cec1aaac4379d0fb5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 54/59] fix: formulate_shortest_path reads the current graph
 representation

---
 pytimize/graphs/_undirected.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 95f7d1b..ab3adb8 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -324,10 +324,7 @@ class UndirectedGraph:
         if end not in self._graph:
             raise ValueError("Ending vertex is not in graph.")
 
-        vertices = self.vertices
-
-        vertices.remove(start)
-        vertices.remove(end)
+        vertices = [vertex for vertex in self._vertices if vertex not in (start, end)]
 
         power_set = []
         # TODO: BFS Disjoint st-cuts
@@ -342,17 +339,14 @@ class UndirectedGraph:
             power_set.append(current_set)
 
         graph_edges = self.edges
-        A = {
-            self._hash_edge((edge[0], edge[1])): np.zeros(len(power_set))
-            for edge in graph_edges
-        }
+        A = {edge: np.zeros(len(power_set)) for edge in graph_edges}
 
         for i, group in enumerate(power_set):
             edges = set()
 
             for vertex in group:
                 edges = edges.union(
-                    map(lambda x: self._hash_edge((vertex, x[0])), self._graph[vertex])
+                    map(lambda x: tuple(sorted((vertex, x))), self._graph[vertex])
                 )
 
             for edge in filter(lambda x: x[0] not in group or x[1] not in group, edges):
@@ -372,8 +366,8 @@ class UndirectedGraph:
         result_c = np.zeros(len(ordered_edges))
         constraints = result_A.shape[0]
 
-        for edge in graph_edges:
-            result_c[edge_positions[self._hash_edge((edge[0], edge[1]))]] = edge[2]
+        for edge, weight in graph_edges.items():
+            result_c[edge_positions[edge]] = weight
 
         return LinearProgram(
             result_A, np.ones(constraints), result_c, 0, "min", [">="] * constraints
-- 
2.43.0


From 435b2557fb8d8fef33bb19a4a1e69628c530fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 55/59] fix: maximum flows and residual graphs on digraphs with
 arcs in both directions

---
 pytimize/graphs/_directed.py | 92 ++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 51 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 5beab49..726c63d 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -351,13 +351,50 @@ class DirectedGraph:
                 raise ArithmeticError("Given flow is infeasible.")
 
             if capacity > value:
-                residual.setdefault(u, {})[v] = capacity - value
+                endpoints = residual.setdefault(u, {})
+                endpoints[v] = endpoints.get(v, 0) + capacity - value
 
             if value > 0:
-                residual.setdefault(v, {})[u] = value
+                endpoints = residual.setdefault(v, {})
+                endpoints[u] = endpoints.get(u, 0) + value
 
         return residual
 
+    def _push_flow(
+        self,
+        flow: Dict[Tuple[str, str], float],
+        residual: Dict[str, Dict[str, float]],
+        source: str,
+        target: str,
+        amount: float,
+    ) -> None:
+        """
+        Sends `amount` along the residual arc from `source` to `target`. Flow on the
+        opposite arc is taken back before flow on the arc itself is increased.
+
+        """
+        arc = (source, target)
+        opposite = (target, source)
+        returned = min(amount, flow.get(opposite, 0))
+
+        if returned > 0:
+            flow[opposite] -= returned
+
+        if amount > returned:
+            flow[arc] += amount - returned
+
+        for u, v in (arc, opposite):
+            value = self._arcs.get((u, v), 0) - flow.get((u, v), 0)
+            value += flow.get((v, u), 0)
+
+            if value > 0:
+                residual.setdefault(u, {})[v] = value
+            elif v in residual.get(u, {}):
+                del residual[u][v]
+
+                if len(residual[u]) == 0:
+                    del residual[u]
+
     def preflow_push(
         self, source: str, sink: str
     ) -> Tuple[float, Dict[Tuple[str, str], float]]:
@@ -413,35 +450,9 @@ class DirectedGraph:
                 for endpoint, value in residual[node].items():
                     if height[endpoint] == height[node] - 1:
                         pushed = True
-                        is_reversed = False
-                        arc = (node, endpoint)
                         push_value = min(excess[node], value)
-                        u, v = node, endpoint
-
-                        if arc not in flow:
-                            is_reversed = True
-                            arc = (endpoint, node)
-                            flow[arc] -= push_value
-                        else:
-                            flow[arc] += push_value
 
-                        if is_reversed:
-                            u, v = v, u
-
-                        residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                        residual.setdefault(v, {})[u] = flow[arc]
-
-                        if residual[u][v] == 0:
-                            del residual[u][v]
-
-                        if residual[v][u] == 0:
-                            del residual[v][u]
-
-                        if len(residual[u]) == 0:
-                            del residual[u]
-
-                        if len(residual[v]) == 0:
-                            del residual[v]
+                        self._push_flow(flow, residual, node, endpoint, push_value)
 
                         if not node == source and not node == sink:
                             excess[node] -= push_value
@@ -538,28 +549,7 @@ class DirectedGraph:
             v = sink
 
             while u is not None:
-                arc = (u, v)
-
-                if arc not in flow:
-                    arc = (v, u)
-                    flow[arc] -= min_residual
-                else:
-                    flow[arc] += min_residual
-
-                residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                residual.setdefault(v, {})[u] = flow[arc]
-
-                if residual[u][v] == 0:
-                    del residual[u][v]
-
-                if residual[v][u] == 0:
-                    del residual[v][u]
-
-                if len(residual[u]) == 0:
-                    del residual[u]
-
-                if len(residual[v]) == 0:
-                    del residual[v]
+                self._push_flow(flow, residual, u, v, min_residual)
 
                 v = u
                 u = path.get(u, None)
-- 
2.43.0


From 0185c47d9de0f3804c1f6440ee461d5c90eb9429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 56/59] fix: formulate the stable set program of a graph
 without edges

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index ab3adb8..9aef8ce 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -408,7 +408,7 @@ class UndirectedGraph:
         mapping = {vertex: i for i, vertex in enumerate(self._vertices)}
         rows = len(self._edges)
         columns = len(mapping)
-        A = np.empty(columns)
+        A = np.empty((1, columns))
 
         for a, b in self._edges:
             row = np.zeros(columns)
-- 
2.43.0


From 20ddf0b6744054185290e29ea7e44f5f661da654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 57/59] fix: row reduction no longer fails on every matrix

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 0845bb1..bd79fd2 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1885,7 +1885,7 @@ class LinearProgram:
         :return: An m x n matrix in RREF that is row equivalent to the given matrix.
 
         """
-        arr = arr.astype(np.floating)
+        arr = arr.astype(float)
         shape = arr.shape
         col = 0
         for row in range(shape[0]):
-- 
2.43.0


From e8d351a128edd5d5cc32213d2c6d90680496a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 58/59] fix: leading ones of a matrix in row reduced echelon
 form move to the right

---
 pytimize/programs/_linear.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index bd79fd2..d268c18 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1841,6 +1841,7 @@ class LinearProgram:
         shape = arr.shape
         row_has_leading_one = False
         has_zero_row = False
+        previous_leading = -1
 
         # Check that all rows either have a leading one or are zero rows
         # For all leading ones, check that the rest of the column is empty, then ignore rest of row
@@ -1857,8 +1858,14 @@ class LinearProgram:
                     return False
 
                 elif math.isclose(arr[row, col], 1):
+                    # leading ones must move to the right
+                    if col < previous_leading:
+                        return False
+
                     # found a leading one, check rest of column for zeros
                     row_has_leading_one = True
+                    previous_leading = col
+
                     for r in range(shape[0]):
                         if not r == row and not math.isclose(arr[r, col], 0):
                             return False
-- 
2.43.0


From 95027502adb318e8ef8af4aad20333a74e3e68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 59/59] fix: the integrality of an integer program is printed
 on its own line

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index be4e558..820cbd5 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -34,7 +34,7 @@ class IntegerProgram(LinearProgram):
         output = super().__repr__().rstrip("\n")
 
         if self._integral_variables is None:
-            output += "x ∈ Z"
+            output += "\nx ∈ Z"
 
         return output
 
-- 
2.43.0

