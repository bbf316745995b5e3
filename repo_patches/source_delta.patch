From fd206953dbc33e51181adc9c8e6c84a411429ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 01/19] fix: minimax-Phragmen and leximax-Phragmen ignored
 max_num_of_committees

if fewer than committeesize candidates are approved; they also returned
unsorted plain sets instead of sorted CandidateSets
---
 abcvoting/abcrules_gurobi.py | 20 ++++++++++++++------
 abcvoting/abcrules_mip.py    | 10 +++++++---
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 4abf087..74f9e22 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -425,12 +425,16 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        committees = [
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
+            for extra in itertools.islice(
+                itertools.combinations(remaining_candidates, num_missing_candidates),
+                max_num_of_committees,
+            )
         ]
+        return sorted_committees(committees)
 
     committees, _ = _optimize_rule_gurobi(
         set_opt_model_func=set_opt_model_func,
@@ -521,12 +525,16 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        committees = [
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
+            for extra in itertools.islice(
+                itertools.combinations(remaining_candidates, num_missing_candidates),
+                max_num_of_committees,
+            )
         ]
+        return sorted_committees(committees)
 
     loadbounds = []
     for iteration in range(len(profile) - 1):
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 419043b..158439e 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -361,12 +361,16 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        committees = [
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
+            for extra in itertools.islice(
+                itertools.combinations(remaining_candidates, num_missing_candidates),
+                max_num_of_committees,
+            )
         ]
+        return sorted_committees(committees)
 
     committees = _optimize_rule_mip(
         set_opt_model_func,
-- 
2.43.0


From be3dd16a54b226291d91a88127dbe1eda7b4147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 02/19] fix: reverse sequential Thiele methods returned
 committees more than once

intermediate committees were stored under tuples in set iteration order, so
the same committee could be stored (and returned) several times
---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e2ae4e7..0a02eea 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1713,7 +1713,7 @@ def _revseq_thiele_irresolute(scorefct_id, profile, committeesize, max_num_of_co
                 cand for cand in profile.candidates if marg_util_cand[cand] == min(marg_util_cand)
             ]
             for cand in cands_to_remove:
-                next_committee = tuple(set(committee) - {cand})
+                next_committee = tuple(sorted(set(committee) - {cand}))
                 comm_scores_next[next_committee] = score - score_reduction
             comm_scores = comm_scores_next
 
-- 
2.43.0


From f9d57a4d959d1093a2196f813aeaf2857a35423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 03/19] fix: rule ids seqav and revseqav are unknown rule ids

the guard compared the rule id instead of the score function id with av
---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 0a02eea..16d3999 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -315,7 +315,7 @@ class Rule:
             except scores.UnknownScoreFunctionError as error:
                 raise UnknownRuleIDError(rule_id) from error
 
-            if rule_id == "av":
+            if scorefct_id == "av":
                 raise UnknownRuleIDError(rule_id)  # seq-AV and revseq-AV are equivalent to AV
 
             # sequential Thiele methods
-- 
2.43.0


From db3d20a7a19cfdb644d02c199504c9881d47ad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 04/19] fix: Profile.copy lost the candidate names

---
 abcvoting/preferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index a92bf7e..0a9acb2 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -268,7 +268,7 @@ class Profile:
         -------
             Profile
         """
-        copy_profile = Profile(num_cand=self.num_cand)
+        copy_profile = Profile(num_cand=self.num_cand, cand_names=self.cand_names)
         copy_profile.add_voters(self._voters)
         return copy_profile
 
-- 
2.43.0


From 9b708ef6c421d0d1be48330f1b831202e4f3fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 05/19] fix: copy.deepcopy(profile) raised a TypeError

__deepcopy__ is called with the memo dictionary
---
 abcvoting/preferences.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 0a9acb2..5da1f07 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -273,7 +273,9 @@ class Profile:
         return copy_profile
 
     __copy__ = copy
-    __deepcopy__ = copy
+
+    def __deepcopy__(self, memo):
+        return self.copy()
 
     def is_party_list(self):
         """
-- 
2.43.0


From 9365e5a35cde752d41dc48ee8b309492cd0f8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 06/19] fix: Profile.str_compact listed equal approval sets
 separately

approval sets were grouped by tuples in set iteration order
---
 abcvoting/preferences.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 5da1f07..99e2fc0 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -303,10 +303,11 @@ class Profile:
         """
         compact = OrderedDict()
         for voter in self._voters:
-            if tuple(voter.approved) in compact:
-                compact[tuple(voter.approved)] += voter.weight
+            approval_set = tuple(sorted(voter.approved))
+            if approval_set in compact:
+                compact[approval_set] += voter.weight
             else:
-                compact[tuple(voter.approved)] = voter.weight
+                compact[approval_set] = voter.weight
         if self.has_unit_weights():
             output = ""
         else:
-- 
2.43.0


From 97ab132056cd666a90838dc5ea59a8bb07447ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 07/19] fix: seq-Phragmen with fractional weights chose
 candidates twice

the values used to exclude candidates are not larger than every possible load
if weights are smaller than 1
---
 abcvoting/abcrules.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 16d3999..11aa344 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2816,6 +2816,7 @@ def _seqphragmen_resolute(
     approvers_weight = {}
     for cand in profile.candidates:
         approvers_weight[cand] = sum(voter.weight for voter in profile if cand in voter.approved)
+    min_weight = min(voter.weight for voter in profile)
     load = start_load
     if load is None:
         load = [0 for _ in range(len(profile))]
@@ -2839,13 +2840,14 @@ def _seqphragmen_resolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else division(committeesize + 1, min_weight)
             for cand in profile.candidates
         ]
         # exclude committees already in the committee
         for cand in profile.candidates:
             if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+                # that's larger than any possible value
+                new_maxload[cand] = division(committeesize + 2, min_weight)
         opt = min(new_maxload)
         if algorithm == "float-fractions":
             tied_cands = [
@@ -2894,6 +2896,7 @@ def _seqphragmen_irresolute(
     approvers_weight = {}
     for cand in profile.candidates:
         approvers_weight[cand] = sum(voter.weight for voter in profile if cand in voter.approved)
+    min_weight = min(voter.weight for voter in profile)
 
     load = start_load
     if load is None:
@@ -2917,13 +2920,14 @@ def _seqphragmen_irresolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else division(committeesize + 1, min_weight)
             for cand in profile.candidates
         ]
         # exclude committees already in the committee
         for cand in profile.candidates:
             if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+                # that's larger than any possible value
+                new_maxload[cand] = division(committeesize + 2, min_weight)
         # compute new loads
         new_committee_load_pairs = []
         for cand in profile.candidates:
-- 
2.43.0


From dfa48896ad93013ff2c576cf394176adbe7346f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 08/19] fix: minimax-Phragmen and leximax-Phragmen infeasible
 for small weights

voters with weights smaller than 1 may have loads larger than the (fixed)
upper bounds of load variables
---
 abcvoting/abcrules_gurobi.py | 15 +++++++++------
 abcvoting/abcrules_mip.py    |  5 +++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 74f9e22..32edeea 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -379,9 +379,10 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
 
     def set_opt_model_func(model, in_committee):
         load = {}
+        max_load = 1.0 / min(voter.weight for voter in profile)  # of one candidate
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(ub=max_load, lb=0.0, name=f"load{i}-{cand}")
 
         # constraint: the committee has the required size
         model.addConstr(
@@ -404,7 +405,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 >= in_committee[cand]
             )
 
-        loadbound = model.addVar(lb=0, ub=committeesize, name="loadbound")
+        loadbound = model.addVar(lb=0, ub=committeesize * max_load, name="loadbound")
         for voter in profile:
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved) <= loadbound
@@ -450,10 +451,11 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
 def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committees):
     def set_opt_model_func(model, in_committee):
         load = {}
+        max_load = 1.0 / min(voter.weight for voter in profile)  # of one candidate
         loadbound_constraint = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(ub=max_load, lb=0.0, name=f"load{i}-{cand}")
 
         for i, _ in enumerate(profile):
             for j, _ in enumerate(profile):
@@ -495,18 +497,19 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 model.addConstr(
                     gb.quicksum(load[(voter, cand)] for cand in voter.approved)
                     <= loadbounds[i]
-                    + (1 - loadbound_constraint[(i, j)]) * committeesize
+                    + (1 - loadbound_constraint[(i, j)]) * committeesize * max_load
                     + ACCURACY
                     # constraint applies only if loadbound_constraint[(i, voter)] == 1
                 )
 
-        newloadbound = model.addVar(lb=0, ub=committeesize, name="new loadbound")
+        newloadbound = model.addVar(lb=0, ub=committeesize * max_load, name="new loadbound")
         for j, voter in enumerate(profile):
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved)
                 <= newloadbound
                 + gb.quicksum(
-                    loadbound_constraint[(i, j)] * committeesize for i in range(len(loadbounds))
+                    loadbound_constraint[(i, j)] * committeesize * max_load
+                    for i in range(len(loadbounds))
                 )
             )
 
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 158439e..21abbbb 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -315,10 +315,11 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
 
     def set_opt_model_func(model, profile, in_committee, committeesize):
         load = {}
+        max_load = 1.0 / min(voter.weight for voter in profile)  # of one candidate
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
                 load[(voter, cand)] = model.add_var(
-                    lb=0.0, ub=1.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
+                    lb=0.0, ub=max_load, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
                 )
 
         # constraint: the committee has the required size
@@ -341,7 +342,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
             )
 
         loadbound = model.add_var(
-            lb=0, ub=committeesize, var_type=mip.CONTINUOUS, name="loadbound"
+            lb=0, ub=committeesize * max_load, var_type=mip.CONTINUOUS, name="loadbound"
         )
         for voter in profile:
             model += mip.xsum(load[(voter, cand)] for cand in voter.approved) <= loadbound
-- 
2.43.0


From 45d9cb956bbc278d559da768ef5f7988568dcb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 09/19] fix: equal shares with increment completion failed for
 weights smaller than 1

---
 abcvoting/abcrules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 11aa344..92eb7df 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3463,8 +3463,10 @@ def _equal_shares_algorithm_with_increment_completion(
         detailed_info = {"too_few_approved_candidates": True}
         return committees, detailed_info
 
+    # if voters have a weight smaller than 1, larger budgets may be required
+    min_weight = min(1, min(voter.weight for voter in profile))
     for increment_committeesize in range(
-        committeesize, math.ceil(committeesize * profile.total_weight() + 1)
+        committeesize, math.ceil(committeesize * Fraction(profile.total_weight(), min_weight) + 1)
     ):
         committees, detailed_info = _equal_shares_algorithm(
             profile,
-- 
2.43.0


From 45682d76d49a339e075c2d92f6b7d9020480a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 10/19] fix: malformed rule ids such as geomfoo and seqgeomfoo
 are unknown rule ids

---
 abcvoting/abcrules.py |  4 ++++
 abcvoting/scores.py   | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 92eb7df..fb7e3aa 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -297,6 +297,10 @@ class Rule:
             self.resolute_values = (False, True)
         elif rule_id.startswith("geom"):
             parameter = rule_id[4:]
+            try:
+                scores.get_marginal_scorefct(rule_id)
+            except scores.UnknownScoreFunctionError as error:
+                raise UnknownRuleIDError(rule_id) from error
             self.shortname = f"{parameter}-Geometric"
             self.longname = f"{parameter}-Geometric Rule"
             self.compute_fct = functools.partial(compute_thiele_method, rule_id)
diff --git a/abcvoting/scores.py b/abcvoting/scores.py
index 7fe0483..26f2b02 100644
--- a/abcvoting/scores.py
+++ b/abcvoting/scores.py
@@ -52,10 +52,16 @@ def get_marginal_scorefct(scorefct_id, committeesize=None):
     if scorefct_id == "av":
         return av_score_fct
     if scorefct_id[:4] == "geom":
-        base = Fraction(scorefct_id[4:])
+        try:
+            base = Fraction(scorefct_id[4:])
+        except (ValueError, ZeroDivisionError) as error:
+            raise UnknownScoreFunctionError(scorefct_id) from error
         return functools.partial(geometric_marginal_score_fct, base=base)
     if scorefct_id[:7] == "atleast":
-        param = int(scorefct_id[7:])
+        try:
+            param = int(scorefct_id[7:])
+        except ValueError as error:
+            raise UnknownScoreFunctionError(scorefct_id) from error
         return functools.partial(at_least_ell_fct, ell=param)
 
     raise UnknownScoreFunctionError(scorefct_id)
-- 
2.43.0


From dbb4a6363df8b6f6ac7e0907d3b754cda4ca58c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 11/19] fix: full_analysis did not restore the output verbosity
 if a check failed

---
 abcvoting/properties.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 07160d1..c0df7f4 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -60,8 +60,12 @@ def full_analysis(profile, committee):
     current_verbosity = output.verbosity
     output.set_verbosity(WARNING)
 
-    for property_name in PROPERTY_NAMES:
-        results[property_name] = check(property_name, profile, committee)
+    try:
+        for property_name in PROPERTY_NAMES:
+            results[property_name] = check(property_name, profile, committee)
+    finally:
+        # restore output verbosity
+        output.set_verbosity(current_verbosity)
 
     description = {
         "pareto": "Pareto optimality",
@@ -75,9 +79,6 @@ def full_analysis(profile, committee):
         "core": "The core",
     }
 
-    # restore output verbosity
-    output.set_verbosity(current_verbosity)
-
     for prop, value in results.items():
         output.info(f"{description[prop]:50s} : {value}")
 
-- 
2.43.0


From 21da5b1afe6caf68493356dfa91fe0ca197baa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 12/19] fix: EJR+ check raised a KeyError for voters with high
 utility and large quotas

---
 abcvoting/properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index c0df7f4..395f286 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -1098,7 +1098,8 @@ def _check_EJR_plus(profile, committee, quota):
         for vi, voter in enumerate(profile):
             if cand in voter.approved:
                 utility = len(voter.approved & committee)
-                supporters_by_utility[utility].add(vi)
+                if utility <= ell_upper_bound:
+                    supporters_by_utility[utility].add(vi)
 
         group = set()
         for ell in range(ell_upper_bound):
-- 
2.43.0


From da7e9ec464b3252878874ab2f88fe852c3776440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 13/19] fix: brute-force EJR and PJR checks were wrong for
 weighted profiles

---
 abcvoting/properties.py | 58 +++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 395f286..2ebcded 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -4,7 +4,6 @@ Axiomatic properties of committees.
 
 import gurobipy as gb
 import itertools
-import math
 from fractions import Fraction
 from abcvoting.output import output, WARNING
 from abcvoting.misc import str_set_of_candidates, CandidateSet, dominate, powerset
@@ -695,6 +694,35 @@ def _check_pareto_optimality_gurobi(profile, committee):
     raise RuntimeError(f"Gurobi returned an unexpected status code: {model.Status}")
 
 
+def _minimal_groups(profile, voters, min_weight):
+    """
+    Iterate over all (inclusion-wise) minimal groups of voters with weight at least `min_weight`.
+
+    Parameters
+    ----------
+    profile : abcvoting.preferences.Profile
+        A profile.
+    voters : list of int
+        A list of voters (indices).
+    min_weight : int, float or Fraction
+        Total weight that is required of a group.
+
+    Yields
+    ------
+    tuple of int
+    """
+    weights = sorted(profile[vi].weight for vi in voters)
+    for size in range(1, len(voters) + 1):
+        if sum(weights[-size:]) < min_weight:
+            continue  # all groups of this size are too small
+        if sum(weights[: size - 1]) >= min_weight:
+            break  # no group of this size is minimal
+        for group in itertools.combinations(voters, size):
+            group_weights = [profile[vi].weight for vi in group]
+            if min_weight <= sum(group_weights) < min_weight + min(group_weights):
+                yield group
+
+
 def _check_EJR_brute_force(profile, committee, quota):
     """
     Test using brute-force whether a committee satisfies EJR.
@@ -722,8 +750,8 @@ def _check_EJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
+        # compute minimum total weight of a group for this ell
+        min_group_weight = ell * quota
 
         # compute list of voters to consider
         for i, voter in enumerate(profile):
@@ -732,15 +760,13 @@ def _check_EJR_brute_force(profile, committee, quota):
                 voters_less_than_ell_approved_candidates_weight += voter.weight
 
         # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
+        if voters_less_than_ell_approved_candidates_weight < min_group_weight:
             # if not possible then simply continue with next ell
             continue
 
-        # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for combination in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        # check all minimal groups of considered voters that have sufficient weight
+        for combination in _minimal_groups(
+            profile, voters_less_than_ell_approved_candidates, min_group_weight
         ):
             # compute set of candidates approved by all voters in combination
             cut = set.intersection(*(profile[vi].approved for vi in combination))
@@ -871,8 +897,8 @@ def _check_PJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
+        # compute minimum total weight of a group for this ell
+        min_group_weight = ell * quota
 
         # compute list of voters to consider
         for vi, voter in enumerate(profile):
@@ -881,15 +907,13 @@ def _check_PJR_brute_force(profile, committee, quota):
                 voters_less_than_ell_approved_candidates_weight += voter.weight
 
         # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
+        if voters_less_than_ell_approved_candidates_weight < min_group_weight:
             # if not possible then simply continue with next ell
             continue
 
-        # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for group in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        # check all minimal groups of considered voters that have sufficient weight
+        for group in _minimal_groups(
+            profile, voters_less_than_ell_approved_candidates, min_group_weight
         ):
             # find set of candidates that are approved by all voters in group
             cut = set.intersection(*(profile[j].approved for j in group))
-- 
2.43.0


From f8abd1e26da5e94446aeee1eebba444b3fd56fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 14/19] fix: E Pluribus Hugo raised an IndexError for profiles
 with a single candidate

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index fb7e3aa..6145701 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -4525,7 +4525,7 @@ def _eph_algorithm(rule_id, profile, algorithm, committeesize, resolute, max_num
                 sdv_score[cand] += division(voter.weight, len(remaining_approved))
                 av_score[cand] += voter.weight
 
-        cutoff_sdv = sorted(sdv_score.values())[1]  # 2nd smallest value
+        cutoff_sdv = sorted(sdv_score.values())[:2][-1]  # 2nd smallest value (if it exists)
         elimination_cands = [
             cand
             for cand in remaining_candidates
-- 
2.43.0


From 146875d9a0d0a0315d30d8dfaf384f8f920f802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 15/19] fix: bound on the budget of increment completion should
 not depend on the scale of weights

---
 abcvoting/abcrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 6145701..cd669a1 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3467,8 +3467,8 @@ def _equal_shares_algorithm_with_increment_completion(
         detailed_info = {"too_few_approved_candidates": True}
         return committees, detailed_info
 
-    # if voters have a weight smaller than 1, larger budgets may be required
-    min_weight = min(1, min(voter.weight for voter in profile))
+    # with the largest budget considered here, each voter can pay for `committeesize` candidates
+    min_weight = min(voter.weight for voter in profile)
     for increment_committeesize in range(
         committeesize, math.ceil(committeesize * Fraction(profile.total_weight(), min_weight) + 1)
     ):
-- 
2.43.0


From f16433dc646f7a6a62e2499714c8777ce3a8343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:16 +0000
Subject: [PATCH 16/19] fix: write integer multiplicities to Preflib files also
 for float weights

A profile with weight 2.0 was written as '2.0: {1, 2}, 3', which the Preflib parser
(and thus read_preflib_file) rejects as malformatted.
---
 abcvoting/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index d1c3d9a..8a87aa1 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -233,7 +233,7 @@ def write_profile_to_preflib_cat_file(filepath, profile):
             tuple(cand + 1 for cand in profile.candidates if cand not in voter.approved),
         )
         if int(voter.weight) == voter.weight:
-            multiplicity = voter.weight
+            multiplicity = int(voter.weight)
         else:
             multiplicity = 1
         if pref not in preflib_inst.preferences:
-- 
2.43.0


From 4ab7abf7b73d673a46c41145760713ae058ad37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:16 +0000
Subject: [PATCH 17/19] fix: reject top_ranks=0 and setsize=0 in
 read_preflib_file

Both parameters must be > 0; the value 0 passed the check and all voters were read
with empty approval sets.
---
 abcvoting/fileio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 8a87aa1..024df5b 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -103,9 +103,9 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
         top_ranks = 1  # default
     if top_ranks and setsize:
         raise ValueError("Parameters top_ranks and setsize cannot be used simultaneously.")
-    if top_ranks and top_ranks <= 0:
+    if top_ranks is not None and top_ranks <= 0:
         raise ValueError("Parameter top_ranks must be > 0")
-    if setsize and setsize <= 0:
+    if setsize is not None and setsize <= 0:
         raise ValueError("Parameter setsize must be > 0")
 
     try:
-- 
2.43.0


From 9939ae84460661a8a7f0e7b4bac973aa5f5d18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:16 +0000
Subject: [PATCH 18/19] fix: writing compute instances without a committee size

read_abcvoting_yaml_file() sets committeesize to None in compute instances if the file
does not specify it; writing these instances again raised a TypeError (int(None)).
---
 abcvoting/fileio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 024df5b..1cb565c 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -382,7 +382,11 @@ def write_abcvoting_instance_to_yaml_file(
                     )
             if "committeesize" in compute_instance.keys():  # this is superfluous information
                 # check that the profile is the same as the main profile
-                if int(compute_instance["committeesize"]) != committeesize:
+                # (None if unspecified, as returned by read_abcvoting_yaml_file())
+                instance_committeesize = compute_instance["committeesize"]
+                if instance_committeesize is not None:
+                    instance_committeesize = int(instance_committeesize)
+                if instance_committeesize != committeesize:
                     raise ValueError(
                         "Compute instance contained a committee size different from"
                         "the committee size passed to write_abcvoting_instance_to_yaml_file()."
-- 
2.43.0


From ed7f971f56723cbf791da679c23116f63617d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:53 +0000
Subject: [PATCH 19/19] fix: fixed-size random profiles have exactly setsize
 approved candidates

The samplers of prefsampling use int(rel_num_approvals * num_candidates) approved
candidates. With rel_num_approvals = setsize / num_cand the product can be rounded
to slightly less than setsize (e.g. setsize=1, num_cand=49), so that one candidate too few is
approved. An exact fraction avoids this.
---
 abcvoting/generate.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/abcvoting/generate.py b/abcvoting/generate.py
index bf75d05..dfa96e0 100644
--- a/abcvoting/generate.py
+++ b/abcvoting/generate.py
@@ -5,6 +5,7 @@ This module is based on the paper on the package
 `prefsampling <https://github.com/COMSOC-Community/prefsampling>`_.
 """
 
+from fractions import Fraction
 import numpy as np
 import prefsampling.approval as app_samplers
 import prefsampling.ordinal as ord_samplers
@@ -124,7 +125,7 @@ def random_urn_fixed_size_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize) / num_cand,
             "alpha": replace,
         },
     )
@@ -154,7 +155,7 @@ def random_ic_fixed_size_profile(num_voters, num_cand, setsize):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize) / num_cand,
         },
     )
 
@@ -187,7 +188,7 @@ def random_mallows_profile(num_voters, num_cand, setsize, dispersion):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize) / num_cand,
             "ordinal_sampler": ord_samplers.mallows,
             "ordinal_sampler_parameters": {"phi": dispersion},
         },
@@ -302,7 +303,7 @@ def random_truncated_urn_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize) / num_cand,
             "ordinal_sampler": ord_samplers.urn,
             "ordinal_sampler_parameters": {"alpha": replace},
         },
@@ -632,7 +633,7 @@ def random_euclidean_fixed_size_profile(
         candidate_points,
         return_points,
         app_samplers.euclidean_constant_size,
-        {"rel_num_approvals": setsize / num_cand},
+        {"rel_num_approvals": Fraction(setsize) / num_cand},
     )
 
 
-- 
2.43.0

