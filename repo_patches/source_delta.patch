From 9d91d53fd6d4290a28f1972b0fa867edbfde75fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:31 +0000
Subject: [PATCH 1/6] fix: CubicSpline rejects arguments in (-h,0) instead of
 extrapolating

Truncation maps r in (-h,0) to interval 0, so the bounds check let such
arguments through and the first interval's cubic was extrapolated.
---
 libsymmetrix/source/cubic_spline.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline.cpp b/libsymmetrix/source/cubic_spline.cpp
index f53eb70..beb96f4 100644
--- a/libsymmetrix/source/cubic_spline.cpp
+++ b/libsymmetrix/source/cubic_spline.cpp
@@ -16,7 +16,7 @@ double CubicSpline::evaluate(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i>=c.size()/4)
+    if (r<0 or i<0 or i>=c.size()/4)
         throw std::invalid_argument("Out of bounds in CubicSpline::evaluate.");
     const double x = r - h*i;
     const double xx = x*x;
@@ -30,7 +30,7 @@ std::tuple<double,double> CubicSpline::evaluate_deriv(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i>=c.size()/4)
+    if (r<0 or i<0 or i>=c.size()/4)
         throw std::invalid_argument("Out of bounds in CubicSpline::evaluate_deriv.");
     const double x = r - h*i;
     const double xx = x*x;
@@ -44,7 +44,7 @@ std::tuple<double,double> CubicSpline::evaluate_deriv_divided(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i>=c.size()/4)
+    if (r<0 or i<0 or i>=c.size()/4)
         throw std::invalid_argument("Out of bounds in CubicSpline::evaluate_deriv.");
     const double x = r - h*i;
     const double xx = x*x;
-- 
2.43.0


From b5bee18461d79d2acaa672cab16ea094dc6860b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:31 +0000
Subject: [PATCH 2/6] fix: MultivariatePolynomial adds up the coefficients of
 repeated monomials

map::insert kept the first coefficient only, so evaluate, evaluate_gradient
and evaluate_batch disagreed with the direct evaluation.
---
 libsymmetrix/source/multivariate_polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/multivariate_polynomial.cpp b/libsymmetrix/source/multivariate_polynomial.cpp
index 951f320..c4821f3 100644
--- a/libsymmetrix/source/multivariate_polynomial.cpp
+++ b/libsymmetrix/source/multivariate_polynomial.cpp
@@ -35,7 +35,7 @@ MultivariatePolynomial::MultivariatePolynomial(
     // (ordering ensured because the map sorts by key)
     std::map<std::vector<int>,double,decltype(lex_less)> map;
     for (int i=0; i<monomials.size(); ++i)
-        map.insert({monomials[i], coefficients[i]});
+        map[monomials[i]] += coefficients[i];
     coefficients.clear();
     monomials.clear();
     for (auto [m,c] : map) {
-- 
2.43.0


From c1bab22504c26a26a29139e8f1972ff1c0cb98c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:31 +0000
Subject: [PATCH 3/6] fix: MultivariatePolynomial work arrays have the right
 size after any batch

evaluate_batch with batch size zero shrinks node_values and node_adjoints;
a later evaluate or evaluate_gradient then wrote out of bounds.
---
 libsymmetrix/source/multivariate_polynomial.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsymmetrix/source/multivariate_polynomial.cpp b/libsymmetrix/source/multivariate_polynomial.cpp
index c4821f3..5095bbd 100644
--- a/libsymmetrix/source/multivariate_polynomial.cpp
+++ b/libsymmetrix/source/multivariate_polynomial.cpp
@@ -149,6 +149,7 @@ auto MultivariatePolynomial::evaluate_batch(
 void MultivariatePolynomial::initialize_forward_pass(
     const std::vector<double>& x)
 {
+    node_values.resize(nodes.size());
     for (int i=0; i<num_variables; ++i)
         node_values[i] = x[i];
 }
@@ -163,6 +164,7 @@ void MultivariatePolynomial::forward_pass()
 
 void MultivariatePolynomial::initialize_backward_pass()
 {
+    node_adjoints.resize(nodes.size());
     cblas_dcopy(node_coefficients.size(),
                 node_coefficients.data(), 1,
                 node_adjoints.data(), 1);
-- 
2.43.0


From 298cf235c32e4a31e79a77f7961d9fa8695fe433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:31 +0000
Subject: [PATCH 4/6] fix: Symmetrix calculator includes atoms without
 neighbours

Trailing isolated atoms were dropped from the evaluated nodes, and structures
without any neighbour pair raised an exception.
---
 symmetrix/source/symmetrix/symmetrix_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 067af9a..a18e80a 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -75,7 +75,7 @@ class Symmetrix(Calculator):
         ase_atomic_numbers = self.atoms.get_atomic_numbers().tolist()
         mace_atomic_numbers = self.evaluator.atomic_numbers
         i_list, j_list, r, xyz = neighbor_list('ijdD', self.atoms, self.cutoff)
-        num_nodes = np.max(i_list) + 1
+        num_nodes = len(self.atoms)
         node_types = [mace_atomic_numbers.index(ase_atomic_numbers[i]) for i in range(num_nodes)]
         num_neigh = np.bincount(j_list, minlength=num_nodes)
         neigh_types = [mace_atomic_numbers.index(ase_atomic_numbers[j]) for j in j_list]
-- 
2.43.0


From 6d05dce98b4c4eb10c482cfd115c7c738dd008e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:51 +0000
Subject: [PATCH 5/6] fix: Symmetrix calculator works for structures without a
 cell

get_volume raises for such structures, so not even their energy could be
computed; they have no stress.
---
 symmetrix/source/symmetrix/symmetrix_calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index a18e80a..c896554 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -98,5 +98,6 @@ class Symmetrix(Calculator):
 
         self.results['forces'] = atom_forces
 
-        # stress from pair_forces
-        self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
+        # stress from pair_forces (undefined without a volume)
+        if self.atoms.cell.rank == 3:
+            self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
-- 
2.43.0


From 5cc1664d776112232cb9eecdbb9572ec80fff2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:14 +0000
Subject: [PATCH 6/6] fix: flush the converted model before it is read back

The evaluator opens the temporary file by name while the text may still sit
in the Python write buffer, so it could read a truncated or empty model.
---
 symmetrix/source/symmetrix/symmetrix_calc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index c896554..a63a072 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -65,6 +65,7 @@ class Symmetrix(Calculator):
             with NamedTemporaryFile("w") as fout:
                 logging.warning(f"Converting via NamedTemporaryFile {fout.name}")
                 fout.write(json.dumps(data))
+                fout.flush()
                 self.evaluator = MACE(fout.name)
 
         self.cutoff = self.evaluator.r_cut
-- 
2.43.0

