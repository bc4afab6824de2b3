From 4ca03b5889bca036a7a451a57ac8da7f334d6031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 01/10] fix: rule classifiers train on the current data and
 parameters

Fitting a second time, or after set_params, silently reused the master
problem of the first training (or of construction).
---
 col_gen_estimator/_bdr_classifier.py | 32 ++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index d5ea232..f3fb8e3 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -674,6 +674,33 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
                 'non_deterministic': True,
                 'binary_only': True}
 
+    def create_subproblems(self):
+        """Returns the subproblems for the current parameters."""
+        return [[BDRSubProblem(self.C, self.subproblem_solver)]]
+
+    def fit(self, X, y):
+        """Runs the column generation loop.
+
+        Parameters
+        ----------
+        X : array-like, shape (n_samples, n_features)
+            The training input samples. The inputs should only contain values
+            in {0,1}.
+        y : array-like, shape (n_samples,)
+            The target values. An array of int.
+
+        Returns
+        -------
+        self : object
+            Returns self.
+        """
+        # A master problem can be generated only once. Start every training
+        # with new models so that it uses the current parameters and data.
+        self.master_problem = BDRMasterProblem(
+            self.C, self.p, self.rmp_solver)
+        self.subproblems = self.create_subproblems()
+        return super(BooleanDecisionRuleClassifier, self).fit(X, y)
+
     def predict(self, X):
         """Predicts the class based on the solution of master problem. This
         method is abstract.
@@ -842,3 +869,8 @@ class BooleanDecisionRuleClassifierWithHeuristic(
         self.p = p
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
+
+    def create_subproblems(self):
+        """Returns the subproblems for the current parameters."""
+        return [[BDRHeuristic(K=1)],
+                [BDRSubProblem(self.C, self.subproblem_solver)]]
-- 
2.43.0


From 214c8a4eaa7044005bd725ac134f91cdca64fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 02/10] fix: tree pricing MIP always selects a target for the
 path

With a 0..1 row the optimal solution may select no target when no row
reaches the leaf, and the returned path has target -1.
---
 col_gen_estimator/_dtree_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 849dc8a..1ef5748 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1298,7 +1298,7 @@ class DTreeSubProblem(BaseSubproblem):
         # only one class selected
         # Binary variables indicating that the class is selected.
         self.w_vars_ = [None]*len(self.targets_)
-        single_target_cons = self.solver_.Constraint(0, 1, 'single_target')
+        single_target_cons = self.solver_.Constraint(1, 1, 'single_target')
         for i in range(len(self.targets_)):
             target = self.targets_[i]
             w_var = self.solver_.BoolVar('w_' + str(target))
-- 
2.43.0


From 67e7dcb22c6a9229f115c6f55ab2ba868647a4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 03/10] fix: the per-target tree pricing model uses the weights
 of the rows

Rows that stand for several data rows (preprocessing) were priced and
costed as one, so the cost of a returned path was wrong.
---
 col_gen_estimator/_dtree_classifier.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 1ef5748..35c6797 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2109,7 +2109,7 @@ class DTreeSubProblemOld(BaseSubproblem):
             y_var = self.solver_.BoolVar('y_'+str(i))
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
             self.y_vars_[i] = y_var.index()
@@ -2208,12 +2208,12 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
 
             y_var = self.solver_.variable(self.y_vars_[i])
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
 
@@ -2334,10 +2334,10 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
             y_var = self.solver_.variable(self.y_vars_[i])
             if self.y_[i] == self.target_:
-                path.cost += 1 * y_var.solution_value()
+                path.cost += obj_coeff * y_var.solution_value()
         return [path]
 
     def update_subproblem(self, X, y, dual_costs):
-- 
2.43.0


From 24e66e7f2a6a3e9e52bbae843d4df34f225bc076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 04/10] fix: paths of intermediate CP pricing solutions carry
 their true cost

The solution callback turns every improving solution into a path, but z was
only bounded from above, so a solution before the optimal one could report
fewer correctly labelled rows than its path has.
---
 col_gen_estimator/_dtree_classifier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 35c6797..82f145c 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1757,6 +1757,11 @@ class DTreeSubProblemSat(BaseSubproblem):
             correct_class = self.y_[i]
             self.model_.Add(self.z_vars_[i] <= self.w_vars_[correct_class])
 
+            # z >= y + w - 1. Paths are also made from solutions that are not
+            # optimal, so the cost must be exact in all of them.
+            self.model_.Add(self.z_vars_[i] - self.y_vars_[i]
+                            - self.w_vars_[correct_class] >= -1)
+
         self.generated_ = True
 
     def update_objective(self, leaf_dual, row_duals, ns_duals, cut_duals):
-- 
2.43.0


From c99552a61266891958db8168079641f649972b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 05/10] fix: the tree classifier reports its constructor
 parameters as given

use_old_sp and master_solver_type were not stored and subproblem_params was
replaced, so get_params, repr and clone (cross validation) failed.
---
 col_gen_estimator/_col_gen_classifier.py | 6 +++++-
 col_gen_estimator/_dtree_classifier.py   | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 07b27fe..461bb86 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -326,6 +326,10 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         for level in range(len(subproblems)):
             assert len(subproblems[level]) == len(subproblem_params[level])
 
+    def get_subproblem_params(self, sp_level, sp_ind):
+        """Returns the solver parameters for the given subproblem."""
+        return self.subproblem_params[sp_level][sp_ind]
+
     def fit(self, X, y):
         """Runs the column generation loop.
 
@@ -419,7 +423,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                     generated_columns = self.subproblems[sp_level][sp_ind] \
                         .generate_columns(
                         X, self.processed_y_, dual_costs,
-                        self.subproblem_params[sp_level][sp_ind])
+                        self.get_subproblem_params(sp_level, sp_ind))
                     sp_time_end = time()
                     self.time_spent_sp_[
                         sp_level][sp_ind] += sp_time_end - sp_time_start
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 82f145c..ce16aa8 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2443,6 +2443,8 @@ class DTreeClassifier(ColGenClassifier):
         self.master_beta_constraints_as_cuts = master_beta_constraints_as_cuts
         self.master_generate_cuts = master_generate_cuts
         self.data_rows = data_rows
+        self.use_old_sp = use_old_sp
+        self.master_solver_type = master_solver_type
         split_ids = []
         for split in splits:
             split_ids.append(split.id)
@@ -2515,6 +2517,12 @@ class DTreeClassifier(ColGenClassifier):
                          self.master_problem, self.subproblems,
                          rmp_is_ip, rmp_solver_params, master_ip_solver_params,
                          all_subproblem_params)
+        # Keep the parameter as given so that it can be reported and cloned.
+        self.subproblem_params = subproblem_params
+
+    def get_subproblem_params(self, sp_level, sp_ind):
+        """Returns the solver parameters for the given subproblem."""
+        return self.subproblem_params if sp_level == 1 else ""
 
     def _more_tags(self):
         return {'X_types': ['categorical'],
-- 
2.43.0


From 9eac8a8d329dd9662f856acc49c6094583fd5372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 06/10] fix: heuristic paths without rows get a valid target

A path followed by no row was generated with target -1, and predict failed
to decode it when a new row reached the leaf.
---
 col_gen_estimator/_dtree_classifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index ce16aa8..64d2b40 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1976,7 +1976,8 @@ class DTreeSubProblemHeuristic(BaseSubproblem):
             n_rows = X.shape[0]
 
             possible_targets = {}
-            best_target = -1
+            # Any target is fine for a path without rows.
+            best_target = self.targets_[0]
             best_target_count = 0
             row_satisfies_path_array = [False]*n_rows
 
-- 
2.43.0


From 984a9bce006b95d75dff66551d9dc375ae59d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 07/10] fix: tree training does not add generated paths to the
 given list

The master problem appended every generated path to the list of initial paths
it was given, so the caller's list (or the shared default), get_params and
clones contained them and a later training started from them.
---
 col_gen_estimator/_dtree_classifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 64d2b40..7995590 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -546,7 +546,8 @@ class DTreeMasterProblem(BaseMasterProblem):
         self.cut_gen_model_ = cp_model.CpModel()
         self.cut_obj_scale = 1000000
         self.generated_ = False
-        self.paths_ = initial_paths
+        # Copy, generated paths must not end up in the list of the caller.
+        self.paths_ = list(initial_paths)
         self.generated_paths_ = set()
         self.leaves_ = leaves
         self.nodes_ = nodes
-- 
2.43.0


From 332309d72ed47beac9155a518695e9463c39ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 08/10] fix: rows forget the path ids of earlier trainings

Preprocessed rows kept the ids of the paths of an earlier master problem, so
that lazily added row constraints of a later one included wrong paths.
---
 col_gen_estimator/_dtree_classifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 7995590..21b1dd8 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -727,6 +727,8 @@ class DTreeMasterProblem(BaseMasterProblem):
 
     def compute_satisfied_paths(self):
         for r, data_row in enumerate(self.data_rows):
+            # Forget the path ids of an earlier training with the same rows.
+            data_row.reachable_paths = set()
             for path in self.paths_:
                 if row_satisfies_path(self.X_[r], self.leaves_[path.leaf_id],
                                       self.splits_, path):
-- 
2.43.0


From 8767b3e4b9fb0729b5070f049d1d598247e7fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 09/10] fix: splits forget the cuts of earlier trainings

Training again with the same splits after cuts were generated raised an
IndexError or put new paths into wrong cuts.
---
 col_gen_estimator/_dtree_classifier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 21b1dd8..5a5b212 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -626,6 +626,10 @@ class DTreeMasterProblem(BaseMasterProblem):
 
         self.X_ = X
         self.y_ = y
+        # Cuts are numbered per master problem. Forget those of earlier ones.
+        for split in self.splits_:
+            split.left_cuts = set()
+            split.right_cuts = set()
         self.create_cut_gen_model()
         infinity = self.solver_.infinity()
         self.solver_.SetNumThreads(1)
-- 
2.43.0


From de8fbf102284b1dd5d4da3a354002178bc479e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 10/10] fix: the tree classifier trains on the current data and
 parameters

Parameters changed after construction had no effect and fitting a second time
silently reused the master problem of the first training.
---
 col_gen_estimator/_dtree_classifier.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 5a5b212..a094726 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2537,6 +2537,27 @@ class DTreeClassifier(ColGenClassifier):
                 'non_deterministic': True,
                 'binary_only': True}
 
+    def fit(self, X, y):
+        """Runs the column generation loop.
+
+        Parameters
+        ----------
+        X : array-like, shape (n_samples, n_features)
+            The training input samples. The inputs should only contain numeric
+            values.
+        y : array-like, shape (n_samples,)
+            The target values. An array of int.
+
+        Returns
+        -------
+        self : object
+            Returns self.
+        """
+        # A master problem can be generated only once. Start every training
+        # with new models so that it uses the current parameters and data.
+        self.__init__(**self.get_params(deep=False))
+        return super(DTreeClassifier, self).fit(X, y)
+
     def predict(self, X):
         """Predicts the class based on the solution of master problem. 
 
-- 
2.43.0

