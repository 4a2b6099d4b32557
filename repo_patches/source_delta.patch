From 92cfe0d822abcae0a38d297eb80186307732c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 01/64] fix: count contiguity violations of a new ply once, and
 not for panels that drop it

---
 src/guidelines/contiguity.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/guidelines/contiguity.py b/src/guidelines/contiguity.py
index 12dbe7f..82ccf3c 100644
--- a/src/guidelines/contiguity.py
+++ b/src/guidelines/contiguity.py
@@ -177,7 +177,7 @@ def calc_n_viola_contig(
                 if pdl[ind_panel, level] >= 0:
                     new_stack = np.hstack((
                         mother_ss_bot[ind_panel][-constraints.n_contig:],
-                        np.array([child_ss]),
+                        np.array([child_ss[0]]),
                         np.flip(mother_ss_bot[
                             ind_panel][-constraints.n_contig:], axis=0)))
                 else:
@@ -196,8 +196,8 @@ def calc_n_viola_contig(
                 if pdl[ind_panel, level] >= 0:
                     new_stack = np.hstack((
                         mother_ss_bot[ind_panel][-constraints.n_contig:],
-                        np.array([child_ss]),
-                        np.array([child_ss]),
+                        np.array([child_ss[0]]),
+                        np.array([child_ss[0]]),
                         np.flip(mother_ss_bot[
                             ind_panel][-constraints.n_contig:], axis=0)))
                 else:
@@ -222,9 +222,6 @@ def calc_n_viola_contig(
                         else:
                             n_viola_contig[ind_panel] += 1
 
-                vector = calc_contig_vector(new_stack, constraints.n_contig)
-                n_viola_contig[ind_panel] += np.sum(vector)
-
     else: ### top
         for ind_panel in range(n_panels):
             if pdl[ind_panel, level] >= 0 \
-- 
2.43.0


From 19b1c67a3501ee0e3a028b5f93bdb403348e38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 02/64] fix: check disorientation of the whole lay-up under
 damage tolerance rule 1

---
 src/guidelines/disorientation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/guidelines/disorientation.py b/src/guidelines/disorientation.py
index a2f0763..3f2957f 100644
--- a/src/guidelines/disorientation.py
+++ b/src/guidelines/disorientation.py
@@ -90,12 +90,12 @@ def is_diso_ss(ss, delta_angle, dam_tol=False,
             for ind_ply in range(ss.size - 3):
                 if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
                     return False
+            return True
         if dam_tol_rule is None and n_plies_dam_tol is None:
             raise Exception('Not enough input arugments!')
-    else:
-        for ind_ply in range(ss.size - 1):
-            if not is_diso(ss[ind_ply], ss[ind_ply + 1], delta_angle):
-                return False
+    for ind_ply in range(ss.size - 1):
+        if not is_diso(ss[ind_ply], ss[ind_ply + 1], delta_angle):
+            return False
     return True
 
 
-- 
2.43.0


From 278c4ab074e7d17af71160faf0b00c645a6c1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 03/64] fix: read the middle ply at the middle of the lay-up in
 the 10% rule check

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index bfe351f..992c503 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -139,7 +139,7 @@ def is_ten_percent_rule(
             percent_135 = 2 * (
                 sum(stack[:stack.size // 2] == -45) + ply_queue.count(-45))
             if stack.size % 2:
-                mid_ply_angle = stack[stack.size % 2]
+                mid_ply_angle = stack[stack.size // 2]
                 if mid_ply_angle == 0:
                     percent_0 += 1
                 if mid_ply_angle == 90:
-- 
2.43.0


From c3a8c6217e89f4ca7d66727a0daa220747e2bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 04/64] fix: import numpy.matlib where repmat is used

---
 src/BELLA/pdl_tools.py             | 1 +
 src/LAYLA_V02/beam_search.py       | 1 +
 src/LAYLA_V02/optimiser.py         | 1 +
 src/guidelines/ten_percent_rule.py | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index adea881..5100c79 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -29,6 +29,7 @@ Guidelines:
 """
 import sys
 import numpy as np
+import numpy.matlib
 
 sys.path.append(r'C:\BELLA')
 from src.guidelines.ply_drop_spacing import calc_penalty_spacing_1ss
diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 36267fc..2f57cb4 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -8,6 +8,7 @@ __author__ = 'Noemie Fedon'
 import sys
 import math as ma
 import numpy as np
+import numpy.matlib
 
 sys.path.append(r'C:\BELLA_and_LAYLA')
 from src.divers.pretty_print import print_lampam, print_ss, print_list_ss
diff --git a/src/LAYLA_V02/optimiser.py b/src/LAYLA_V02/optimiser.py
index a6a8e6b..9f2e78f 100644
--- a/src/LAYLA_V02/optimiser.py
+++ b/src/LAYLA_V02/optimiser.py
@@ -16,6 +16,7 @@ __author__ = 'Noemie Fedon'
 
 import sys
 import numpy as np
+import numpy.matlib
 
 sys.path.append(r'C:\BELLA_and_LAYLA')
 
diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 992c503..1606c4a 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -24,6 +24,7 @@ __author__ = 'Noemie Fedon'
 
 import sys
 import numpy as np
+import numpy.matlib
 import math
 
 sys.path.append(r'C:\BELLA')
-- 
2.43.0


From 54dee4c9d8f7ee9616eb383f617da353e68ee487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 05/64] fix: tolerate rounding in the +/-45 share of the 10%
 rule on ply counts

---
 src/guidelines/ten_percent_rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 1606c4a..5b69952 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -119,7 +119,8 @@ def is_ten_percent_rule(
             or percent_45 < constraints.percent_45 \
             or percent_90 < constraints.percent_90 \
             or percent_135 < constraints.percent_135 \
-            or percent_45 + percent_135 < constraints.percent_45_135:
+            or percent_45 + percent_135 + 1e-15 \
+            < constraints.percent_45_135:
                 return False
         return True
 
-- 
2.43.0


From 47f3d545f2952edffe4f78aa1b9cb6cef585821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 06/64] fix: accept a list of lay-ups when the 10% rule is
 inactive

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 5b69952..d828f59 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -237,7 +237,7 @@ def calc_penalty_10_ss(ss, constraints, LPs=None, mp=False):
 
     if not mp:
         return 0
-    return np.zeros((ss.shape[0],))
+    return np.zeros((len(ss),))
 
 
 def calc_penalty_10_pc(n_plies_per_angle, constraints, cummul_areas=1):
-- 
2.43.0


From 55814a166be7eddb21ee5ff8bf1faa98e93cb266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 07/64] fix: no 10% rule penalty for a laminate without plies

---
 src/guidelines/ten_percent_rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index d828f59..de0325e 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -261,6 +261,7 @@ def calc_penalty_10_pc(n_plies_per_angle, constraints, cummul_areas=1):
                     + max(0, constraints.percent_135 - percent_135)
                     + max(0, constraints.percent_45_135 \
                           - percent_45 - percent_135))
+            return 0
 
         penalties = np.zeros((n_plies_per_angle.shape[0],))
         for ind_ss in range(n_plies_per_angle.shape[0]):
-- 
2.43.0


From f2ef476d56210fc693a5a7382e63392d47969786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 08/64] fix: let the 10% rule functions accept LAYLA
 constraints

---
 src/LAYLA_V02/constraints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index 164c95a..dd78cc3 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -59,6 +59,7 @@ Choose either:
 
         # 10% rule: requirement on minimum percentage of plies
         # in the 0/+-45/90  deg directions
+        self.rule_10_Abdalla = False # rule not applied by restricting LPs
         self.rule_10_percent = rule_10_percent
         if not isinstance(rule_10_percent, bool):
             raise ConstraintDefinitionError("""
-- 
2.43.0


From 6fa3ec442a4dc8250f41d3b96ef93e5a06b845ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 09/64] fix: check as many covering plies as the covering rule
 asks for

---
 src/guidelines/one_stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/one_stack.py b/src/guidelines/one_stack.py
index 789876a..e207b09 100644
--- a/src/guidelines/one_stack.py
+++ b/src/guidelines/one_stack.py
@@ -81,7 +81,9 @@ def check_ply_drop_rules(reduced_sst, multipanel, constraints, reduced=True):
     reduced = True if the function is applied to the blending strip
     """
     if constraints.covering:
-        if (reduced_sst[:, 0] == -1).any() or (reduced_sst[:, -1] == -1).any():
+        n_covering = constraints.n_covering
+        if (reduced_sst[:, :n_covering] == -1).any() \
+        or (reduced_sst[:, -n_covering:] == -1).any():
             raise Exception("Covering constraint not satisfied")
 
     if  constraints.pdl_spacing:
-- 
2.43.0


From a42ca32a3ecc9bdfe5b083ae575b02cbd92ff4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 10/64] fix: keep the paired table aligned in the contiguity
 filter at group junctions

---
 src/guidelines/external_contig.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/guidelines/external_contig.py b/src/guidelines/external_contig.py
index b6ba1aa..1ed53e1 100644
--- a/src/guidelines/external_contig.py
+++ b/src/guidelines/external_contig.py
@@ -389,6 +389,7 @@ sublaminate
                             if  angle[ii, 0] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 3:
@@ -401,6 +402,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -414,6 +416,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -428,6 +431,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1]\
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -443,6 +447,7 @@ sublaminate
                             and angle[ii, 4] == ss_before[-1] \
                             and angle[ii, 5] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -458,6 +463,7 @@ sublaminate
                         if  angle[ii, 0] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-2]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 3:
@@ -470,6 +476,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -483,6 +490,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
 
@@ -498,6 +506,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -513,6 +522,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1] \
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -532,6 +542,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 4:
@@ -545,6 +556,7 @@ sublaminate
                             and ss_before[-3] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -559,6 +571,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -574,6 +587,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1]  \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -597,6 +611,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 5:
@@ -611,6 +626,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -626,6 +642,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
                 else:
                     raise Exception(
@@ -652,6 +669,7 @@ sublaminate
                         and ss_before[-2] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 6:
@@ -667,6 +685,7 @@ sublaminate
                             and angle[ii, 0] == ss_before[-5] \
                             and angle[ii, 1] == ss_before[-5]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -698,6 +717,7 @@ sublaminate
                         and angle[ii, 0] == ss_before[-5]  \
                         and ss_before[-6] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 else:
-- 
2.43.0


From 338886c2cf509b005b216dc6c0bef7eba15b2a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 11/64] fix: subset sums without the np.bool alias numpy
 removed

---
 src/divers/subset_sum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/divers/subset_sum.py b/src/divers/subset_sum.py
index 5fc0e91..b1d3cb1 100644
--- a/src/divers/subset_sum.py
+++ b/src/divers/subset_sum.py
@@ -153,7 +153,7 @@ def subset_next_test ( ):
 
   print ( '' )
   n = 5
-  t = np.zeros ( n, dtype = np.bool )
+  t = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
@@ -216,7 +216,7 @@ def subset_sum_count ( n, w, t ):
 
   count = 0
 
-  s = np.zeros ( n, dtype = np.bool )
+  s = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
@@ -413,8 +413,8 @@ def subset_sum_find ( n, w, t ):
   import numpy as np
   from sys import exit
 
-  s = np.zeros ( n, dtype = np.bool )
-  s2 = np.zeros ( n, dtype = np.bool )
+  s = np.zeros ( n, dtype = bool )
+  s2 = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
-- 
2.43.0


From a588eebf50f38cf52c68e8971a1a93aedfefb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 12/64] fix: return an empty list for a total no subset reaches

---
 src/divers/subset_sum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/divers/subset_sum.py b/src/divers/subset_sum.py
index b1d3cb1..68898fc 100644
--- a/src/divers/subset_sum.py
+++ b/src/divers/subset_sum.py
@@ -1064,6 +1064,8 @@ def subset_sum_table_to_list ( t, table ):
   m = 0
   i = t
   while ( 0 < i ):
+    if ( table[i] == 0 ):
+      return 0, []
     index.append ( table[i] )
     i = i - table[i]
     m = m + 1
-- 
2.43.0


From 3e49c96cd899ae3ac01574280c89435930d9fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:44 +0000
Subject: [PATCH 13/64] fix: sum the weightings of the panels merged in a
 reduced structure

---
 src/BELLA/reduced_multipanels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/reduced_multipanels.py b/src/BELLA/reduced_multipanels.py
index c5dfcf1..fea0078 100644
--- a/src/BELLA/reduced_multipanels.py
+++ b/src/BELLA/reduced_multipanels.py
@@ -70,9 +70,9 @@ The panel ply counts are not compatible with guide-based blending (middle ply)""
 
         # reduced panel weightings in the reduced multipanel objective function
         self.panel_weightings_ini = np.zeros((self.n_panels,))
-        for ind_panel in range(self.n_panels):
+        for ind_panel, panel in enumerate(multipanel.panels):
             self.panel_weightings_ini[self.ind_panels_guide[
-                ind_panel]] += self.panel_weightings_ini[ind_panel]
+                ind_panel]] += panel.weighting
 #        print('self.panel_weightings_ini', self.panel_weightings_ini)
 
         if n_plies_ref_panel in self.n_plies_in_panels:
-- 
2.43.0


From ec6a613c3f319d0adb441bfd66f567021c351000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 14/64] fix: aggregate the weightings of all the panels in the
 reduced structure

---
 src/BELLA/reduced_multipanels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/reduced_multipanels.py b/src/BELLA/reduced_multipanels.py
index fea0078..2fa26c3 100644
--- a/src/BELLA/reduced_multipanels.py
+++ b/src/BELLA/reduced_multipanels.py
@@ -158,7 +158,7 @@ The panel ply counts are not compatible with guide-based blending (middle ply)""
         parameters are aggregated
         """
         self.actual_panel_weightings = np.zeros((self.n_panels,))
-        for ind_panel, panel in enumerate(self.panels):
+        for ind_panel, panel in enumerate(multipanel.panels):
             self.actual_panel_weightings[
                 self.ind_panels_guide[ind_panel]] += panel.weighting
 
-- 
2.43.0


From a7f64da60f0b03a8de88146e5f70b5ec41a94c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 15/64] fix: store boundary weights declared in reverse order
 under the sorted boundary

---
 src/BELLA/multipanels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/multipanels.py b/src/BELLA/multipanels.py
index 0ba76b4..2f8651c 100644
--- a/src/BELLA/multipanels.py
+++ b/src/BELLA/multipanels.py
@@ -195,7 +195,7 @@ The panels of the multipanel-component are not all connected!""")
                     self.boundary_weights_in_IDs[
                         (ind_panel2, ind_panel1)] = weight
                     self.boundary_weights[
-                        (ind_panel2_mod, ind_panel1_mod)] = weight
+                        (ind_panel1_mod, ind_panel2_mod)] = weight
 
         else:  # all boundary weightings set to one
             for ind_panel1, ind_panel2 in self.boundaries_in_IDs:
-- 
2.43.0


From 08178bc86088f7ddf2ab011749fe610cab31da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 16/64] fix: accept boundary weights equal to zero

---
 src/BELLA/multipanels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/multipanels.py b/src/BELLA/multipanels.py
index 2f8651c..99a7e05 100644
--- a/src/BELLA/multipanels.py
+++ b/src/BELLA/multipanels.py
@@ -182,7 +182,7 @@ The panels of the multipanel-component are not all connected!""")
                 ind_panel1_mod, ind_panel2_mod = sorted((ind_panel1_mod,
                                                          ind_panel2_mod))
                 weight = boundary_weights.get((ind_panel1, ind_panel2), None)
-                if weight:
+                if weight is not None:
                     self.boundary_weights_in_IDs[
                         (ind_panel1, ind_panel2)] = weight
                     self.boundary_weights[
@@ -190,7 +190,7 @@ The panels of the multipanel-component are not all connected!""")
                 else:
                     weight = boundary_weights.get(
                         (ind_panel2, ind_panel1), None)
-                    if not weight:
+                    if weight is None:
                         raise Exception('Missing boundary weightings.')
                     self.boundary_weights_in_IDs[
                         (ind_panel2, ind_panel1)] = weight
-- 
2.43.0


From f14970c80b276aec95e61428dd86bce657babe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 17/64] fix: reject lamination-parameter weightings of the
 wrong type or size

---
 src/BELLA/panels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index d490fd7..68b68cb 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -105,9 +105,9 @@ The panel weighting in the multi-panel objective function must be positive!
 """)
 
         # lamination-parameter weightings in panel objective function
-        if not(isinstance(lampam_weightings, np.ndarray)) \
+        if not(isinstance(lampam_weightings, np.ndarray) \
         and lampam_weightings.size == 12 \
-        and lampam_weightings.dtype == float:
+        and lampam_weightings.dtype == float):
             raise PanelDefinitionError("""
 Attention, lampam_weightings must be a vector with 12 float components!
 """)
-- 
2.43.0


From f341c3515662051b4bb6800ddba64ec3a04fce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:13 +0000
Subject: [PATCH 18/64] fix: count the covering plies in the group positions of
 the thickest panel

---
 src/BELLA/divide_panels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/divide_panels.py b/src/BELLA/divide_panels.py
index 38a4807..695cc27 100644
--- a/src/BELLA/divide_panels.py
+++ b/src/BELLA/divide_panels.py
@@ -112,7 +112,7 @@ limitations !
             # pos_first_ply_groups: position of the first ply of each group in
             # the order in which they appear in the stacking sequence
             pos_first_ply_groups = np.zeros((n_groups,), int)
-    #        pos_first_ply_groups[0] = 1
+            pos_first_ply_groups[0] = constraints.n_covering
             for ind in np.arange(1, n_groups):
                 pos_first_ply_groups[ind] \
                 = pos_first_ply_groups[ind - 1] + n_plies_in_groups[ind - 1]
@@ -200,7 +200,7 @@ limitations !
             # pos_of_groups: position of the first ply of each
             # group in the order they appear in the final stacking sequence
             pos_of_groups = np.zeros((n_groups,), int)
-    #        pos_of_groups[0] = 1
+            pos_of_groups[0] = constraints.n_covering
             for ind in np.arange(1, n_groups):
                 pos_of_groups[ind] = pos_of_groups[ind - 1] \
                 + order_of_groups[ind - 1]
-- 
2.43.0


From babe6f41195c5f7590a9c2813879fa98fbbb4825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 19/64] fix: keep all the previous plies when checking the
 contiguity of the last ply of a short lay-up

---
 src/BELLA/pruning.py     |  6 +++---
 src/LAYLA_V02/pruning.py | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index b55f88d..04a0b8a 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -179,7 +179,7 @@ def pruning_diso_contig_damtol(
             # symmetric laminate with no middle ply
             if constraints.sym and not has_middle_ply:
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -192,7 +192,7 @@ def pruning_diso_contig_damtol(
             # symmetric laminate with middle ply
             elif constraints.sym and has_middle_ply:
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -203,7 +203,7 @@ def pruning_diso_contig_damtol(
 
             else: # not symmetric
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
                     if not internal_contig2(
diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index f2faa78..bf2f646 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -206,11 +206,11 @@ def pruning_diso_contig_damtol(
         and level == targets.n_plies // 2 + targets.n_plies % 2 - 1:
 
             ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
+                max(0, mother_ss_bot.size - constraints.n_contig):]
             if ss_before.size < constraints.n_contig:
                 ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
+                    ss_bot_simp[max(0, ss_bot_simp.size \
+                                - constraints.n_contig + ss_before.size):],
                     ss_before))
 
             if targets.n_plies % 2 == 0: # no middle ply
@@ -237,11 +237,11 @@ def pruning_diso_contig_damtol(
         elif not constraints.sym and level == targets.n_plies - 1:
 
             ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
+                max(0, mother_ss_bot.size - constraints.n_contig):]
             if ss_before.size < constraints.n_contig:
                 ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
+                    ss_bot_simp[max(0, ss_bot_simp.size \
+                                - constraints.n_contig + ss_before.size):],
                     ss_before))
 
             ss_after = mother_ss_top[:constraints.n_contig]
-- 
2.43.0


From aadc03ca393b63beb333dcf9cb285a7ef2db908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:48 +0000
Subject: [PATCH 20/64] fix: drop the opposite outer ply, not the identical
 one, when +-45 are not compatible

---
 src/BELLA/pruning.py     | 4 ++--
 src/LAYLA_V02/pruning.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index 04a0b8a..c6c3e2e 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -84,7 +84,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_bot[0]:
+                            if child_ss[ind] == - mother_ss_bot[0]:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
@@ -107,7 +107,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_top[-1]:
+                            if child_ss[ind] == - mother_ss_top[-1]:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index bf2f646..521316e 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -85,7 +85,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_bot[0]:
+                            if child_ss[ind] == - mother_ss_bot[0]:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
@@ -108,7 +108,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_top[-1]:
+                            if child_ss[ind] == - mother_ss_top[-1]:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
-- 
2.43.0


From c27e1bdd9aad659d312da18ed614ea28bfae3e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:50 +0000
Subject: [PATCH 21/64] fix: name of the argument of internal_contig2 in the
 pruning of asymmetric lay-ups

---
 src/BELLA/pruning.py     | 2 +-
 src/LAYLA_V02/pruning.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index c6c3e2e..4fb19d0 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -207,7 +207,7 @@ def pruning_diso_contig_damtol(
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
                     if not internal_contig2(
-                            new_stack=np.hstack((
+                            stack=np.hstack((
                                 ss_before, child_ss[ind], ss_after)),
                             constraints=constraints):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index 521316e..cf52df8 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -252,7 +252,7 @@ def pruning_diso_contig_damtol(
 
             for ind in range(child_ss.size)[:: -1]:
                 if not internal_contig2(
-                        new_stack=np.hstack((
+                        stack=np.hstack((
                             ss_before, child_ss[ind], ss_after)),
                         constraints=constraints):
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-- 
2.43.0


From 9bcac14b9a49c04e87261d959a23bb8b8bf88453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:52 +0000
Subject: [PATCH 22/64] fix: accept sets of fibre angles without angle plies

---
 src/BELLA/constraints.py     | 8 +++-----
 src/LAYLA_V02/constraints.py | 9 ++++-----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/BELLA/constraints.py b/src/BELLA/constraints.py
index 1059678..37dfb16 100644
--- a/src/BELLA/constraints.py
+++ b/src/BELLA/constraints.py
@@ -327,10 +327,8 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
 """)
         # Identification of the panels which are not balanced by counting the
         # difference of ply counts for the angled plies.
-        angles_bal = self.set_of_angles[[
-            index for index in range(self.set_of_angles.size) \
-         if self.set_of_angles[index] > 0 \
-         and self.set_of_angles[index] < 90]]
+        angles_bal = [
+            angle for angle in self.set_of_angles if angle > 0 and angle < 90]
         # angles_bal: each row has three values:
         # - fibre orientation of angle ply theta
         # - index of +theta in constraints.set_of_angles
@@ -339,7 +337,7 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
             elem,
             self.ind_angles_dict[elem],
             self.ind_angles_dict[-elem]
-            ] for elem in angles_bal])
+            ] for elem in angles_bal], int).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index dd78cc3..c15d0cd 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -257,10 +257,8 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
 """)
         # Identification of the panels which are not balanced by counting the
         # difference of ply counts for the angled plies.
-        angles_bal = self.set_of_angles[
-            [index for index in range(self.set_of_angles.size) \
-             if self.set_of_angles[index] > 0 \
-             and self.set_of_angles[index] < 90]]
+        angles_bal = [
+            angle for angle in self.set_of_angles if angle > 0 and angle < 90]
         # angles_bal: each row has three values:
         # - fibre orientation of angle ply theta
         # - index of +theta in constraints.set_of_angles
@@ -268,7 +266,8 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
         self.angles_bal = np.array([[
             elem,
             self.ind_angles_dict[elem],
-            self.ind_angles_dict[-elem]] for elem in angles_bal])
+            self.ind_angles_dict[-elem]] for elem in angles_bal],
+            int).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
-- 
2.43.0


From 37e279aaac6524622f1f839991475c100b5df64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:54 +0000
Subject: [PATCH 23/64] fix: reject contiguity limits smaller than one

---
 src/BELLA/constraints.py     | 2 +-
 src/LAYLA_V02/constraints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/constraints.py b/src/BELLA/constraints.py
index 37dfb16..c36d714 100644
--- a/src/BELLA/constraints.py
+++ b/src/BELLA/constraints.py
@@ -127,7 +127,7 @@ Attention, contig must be a boolean!""")
         else:
             self.n_contig = n_contig
             self.n_contig_c = n_contig
-            if n_contig == 1:
+            if n_contig <= 1:
                 raise ConstraintDefinitionError("""
 Not allowing two adjacent plies to have the same fibre orientation is too
 restricting!
diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index c15d0cd..6066aa5 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -91,7 +91,7 @@ Attention, contig must be a boolean!""")
         else:
             self.n_contig = n_contig
             self.n_contig_c = n_contig
-            if n_contig == 1:
+            if n_contig <= 1:
                 raise ConstraintDefinitionError("""
 Not allowing two adjacent plies to have the same fibre orientation is too
 restricting!
-- 
2.43.0


From de9a2283a2614bb56c41402d101eb8d1dbe4e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 24/64] fix: check the signs of the transverse and shear moduli

---
 src/BELLA/materials.py     | 4 ++--
 src/LAYLA_V02/materials.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index a467770..cbb514d 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index a467770..cbb514d 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
-- 
2.43.0


From ac1b5eb6c891fb047afa4f9c3c329d568bcebd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 25/64] fix: default volume density from the default area
 density

---
 src/BELLA/materials.py     | 2 +-
 src/LAYLA_V02/materials.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index cbb514d..c7f426a 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index cbb514d..c7f426a 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
-- 
2.43.0


From a84757f3df0f855abdcf828d744b1a4b3f85d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 26/64] fix: keep the bend-twist weighting when only in-plane
 orthotropy is penalised

---
 src/LAYLA_V02/parameters.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/LAYLA_V02/parameters.py b/src/LAYLA_V02/parameters.py
index 93d4f32..6ca2b7a 100644
--- a/src/LAYLA_V02/parameters.py
+++ b/src/LAYLA_V02/parameters.py
@@ -344,7 +344,6 @@ Attention, the elements of lampam_to_be_optimised must be either 0 or 1!
         elif constraints.ipo and self.penalty_ipo_switch:
             if set(constraints.set_of_angles) == set([0, 45, -45, 90]):
                 sensitivities[2] = s*coeff_bal_ipo
-                sensitivities[10] = s*coeff_oopo
             else:
                 sensitivities[2] = s*coeff_bal_ipo
                 sensitivities[3] = s*coeff_bal_ipo
-- 
2.43.0


From 1012bb86b377fc1678f5d9254a3bf8df79bc26ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:01 +0000
Subject: [PATCH 27/64] fix: damage tolerance pruning after a first group of a
 single ply

---
 src/LAYLA_V02/pruning.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index cf52df8..4d09567 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -72,9 +72,12 @@ def pruning_diso_contig_damtol(
 
             if level == 1:
 
+                # outermost ply, possibly placed with the previous ply group
+                outer_ply = np.hstack((ss_bot_simp, mother_ss_bot))[0]
+
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
-                        if child_ss[ind] != - mother_ss_bot[0]:
+                        if child_ss[ind] != - outer_ply:
                             child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
                 elif constraints.dam_tol_rule == 3:
@@ -85,7 +88,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] == - mother_ss_bot[0]:
+                            if child_ss[ind] == - outer_ply:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
-- 
2.43.0


From b62ca1c56d6e84b6084f95b6f35614fe73a32f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 28/64] fix: distance to the boundary of the
 lamination-parameter 10% rule

---
 src/guidelines/ten_percent_rule_Abdalla.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/guidelines/ten_percent_rule_Abdalla.py b/src/guidelines/ten_percent_rule_Abdalla.py
index 2ebb91b..3fd6ddd 100644
--- a/src/guidelines/ten_percent_rule_Abdalla.py
+++ b/src/guidelines/ten_percent_rule_Abdalla.py
@@ -73,11 +73,12 @@ def calc_distance_Abdalla(LPs, constraints, num=10000):
         and 1 - 4 * constraints.percent_Abdalla - LPs[1] + 1e-15 > 0:
             return 0
 
-        LP1_max = math.sqrt(1 - 4 * constraints.percent_Abdalla)
+        # both boundaries meet at |LP1| = LP2 = 1 - 4 * percent_Abdalla
+        LP1_max = 1 - 4 * constraints.percent_Abdalla
         LP1_min = - LP1_max
 
         def point_parabola_Abdalla(LP1, constraints):
-            LP2 = 2 * (LP1 / (1 - 4 * constraints.percent_Abdalla)) **2 \
+            LP2 = 2 * LP1**2 / (1 - 4 * constraints.percent_Abdalla) \
             - (1 - 4 * constraints.percent_Abdalla)
             return np.array([LP1, LP2])
 
-- 
2.43.0


From 0288471f312ec0db3f4b9fb7c0dc7d0155b9ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:27 +0000
Subject: [PATCH 29/64] fix: D66 from the second out-of-plane lamination
 parameter

---
 src/buckling/buckling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buckling/buckling.py b/src/buckling/buckling.py
index aae1013..c9ba6a0 100644
--- a/src/buckling/buckling.py
+++ b/src/buckling/buckling.py
@@ -79,7 +79,7 @@ def buckling_factor(
         D11 = a * (mat.U1 + mat.U2*lampam[0] + mat.U3*lampam[1])
         D12 = a *(-mat.U3*lampam[1] + mat.U4)
         D22 = a *(mat.U1 - mat.U2*lampam[0] + mat.U3*lampam[1])
-        D66 = a *(-mat.U3*lampam[0] + mat.U5)
+        D66 = a *(-mat.U3*lampam[1] + mat.U5)
     for mode_m in range(n_modes):
         for mode_n in range(n_modes):
             buck[mode_m, mode_n] = buckling_factor_m_n(
-- 
2.43.0


From aa5ce042b823a0360e7f9984da83252b7cba13f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 30/64] fix: indices of the reduced panels in the unconstrained
 objectives

---
 src/BELLA/objectives.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BELLA/objectives.py b/src/BELLA/objectives.py
index 34dc263..ed83dca 100644
--- a/src/BELLA/objectives.py
+++ b/src/BELLA/objectives.py
@@ -196,20 +196,20 @@ def calc_unconst_obj_multi_panel_A(
             objectives[ind_reduced_panel] = calc_obj_one_panel(
                 lampam=lampamA[ind_reduced_panel],
                 lampam_target=multipanel.panels[
-                    multipanel.ind_for_reduc[
+                    multipanel.reduced.ind_for_reduc[
                         ind_reduced_panel]].lampam_target[:4],
                 lampam_weightings=multipanel.panels[
-                    multipanel.ind_for_reduc[
+                    multipanel.reduced.ind_for_reduc[
                         ind_reduced_panel]].lampam_weightings[:4])
     else:
         for ind_reduced_panel in range(multipanel.reduced.n_panels):
             objectives[ind_reduced_panel] = calc_obj_one_panel(
                 lampam=lampamA[ind_reduced_panel],
                 lampam_target=multipanel.panels[
-                    multipanel.ind_for_reduc[
+                    multipanel.reduced.ind_for_reduc[
                         ind_reduced_panel]].lampam_target[:4],
                 lampam_weightings=multipanel.panels[
-                    multipanel.ind_for_reduc[
+                    multipanel.reduced.ind_for_reduc[
                         ind_reduced_panel]].lampam_weightings[:4])
     return sum(obj_func_param.reduced_actual_panel_weightingsA * objectives)
 
@@ -233,20 +233,20 @@ def calc_unconst_obj_multi_panel_D(
             objectives[ind_reduced_panel] = calc_obj_one_panel(
                 lampam=lampamD[ind_reduced_panel],
                 lampam_target=multipanel.panels[
-                    multipanel.ind_for_reduc[
+                    multipanel.reduced.ind_for_reduc[
                         ind_reduced_panel]].lampam_target[8:12],
                 lampam_weightings=multipanel.panels[
-                    multipanel.ind_for_reduc[
+                    multipanel.reduced.ind_for_reduc[
                         ind_reduced_panel]].lampam_weightings[8:12])
     else:
         for ind_reduced_panel in range(multipanel.reduced.n_panels):
             objectives[ind_reduced_panel] = calc_obj_one_panel(
                 lampam=lampamD[ind_reduced_panel],
                 lampam_target=multipanel.panels[
-                    multipanel.ind_for_reduc[
+                    multipanel.reduced.ind_for_reduc[
                         ind_reduced_panel]].lampam_target[8:12],
                 lampam_weightings=multipanel.panels[
-                    multipanel.ind_for_reduc[
+                    multipanel.reduced.ind_for_reduc[
                         ind_reduced_panel]].lampam_weightings[8:12])
     return sum(obj_func_param.reduced_actual_panel_weightingsD * objectives)
 
-- 
2.43.0


From 5d4c92b7768c202a24b85384653765be99643ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:42 +0000
Subject: [PATCH 31/64] fix: penalties common to all panels with missing
 objectives

---
 src/BELLA/objectives.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/BELLA/objectives.py b/src/BELLA/objectives.py
index ed83dca..9083c54 100644
--- a/src/BELLA/objectives.py
+++ b/src/BELLA/objectives.py
@@ -140,38 +140,40 @@ def calc_obj_multi_panel(
             to_add = actual_panel_weightings[ind] * objective[ind]
             
             if penalty_diso is not None:
-                if (isinstance(penalty_diso, list) \
-                    and len(penalty_diso) > 1) or penalty_diso.size > 1:
+                if np.size(penalty_diso) > 1:
                     to_add *= (1 + coeff_diso * penalty_diso[ind])
                 else:
                     to_add *= (1 + coeff_diso * penalty_diso)
             
             if penalty_contig is not None:
-                if (isinstance(penalty_contig, list) \
-                    and len(penalty_contig) > 1) or  penalty_contig.size > 1:
+                if np.size(penalty_contig) > 1:
                     to_add *= (1 + coeff_contig * penalty_contig[ind])
                 else:
                     to_add *= (1 + coeff_contig * penalty_contig)
 
             if penalty_10 is not None:
-                if (isinstance(penalty_10, list) and len(penalty_10) > 1) \
-                or  penalty_10.size > 1:
+                if np.size(penalty_10) > 1:
                     to_add *= (1 + coeff_10 * penalty_10[ind])
                 else:
                     to_add *= (1 + coeff_10 * penalty_10)
 
             if penalty_oopo is not None:
-                if (isinstance(penalty_oopo, list) \
-                    and len(penalty_oopo) > 1) or  penalty_oopo.size > 1:
+                if np.size(penalty_oopo) > 1:
                     to_add *= (1 + coeff_oopo * penalty_oopo[ind])
                 else:
                     to_add *= (1 + coeff_oopo * penalty_oopo)
 
             if penalty_bal_ipo is not None:
-                to_add *= (1 + coeff_bal_ipo * penalty_bal_ipo[ind])
+                if np.size(penalty_bal_ipo) > 1:
+                    to_add *= (1 + coeff_bal_ipo * penalty_bal_ipo[ind])
+                else:
+                    to_add *= (1 + coeff_bal_ipo * penalty_bal_ipo)
 
             if penalty_weight is not None:
-                to_add *= (1 + coeff_weight * penalty_weight[ind])
+                if np.size(penalty_weight) > 1:
+                    to_add *= (1 + coeff_weight * penalty_weight[ind])
+                else:
+                    to_add *= (1 + coeff_weight * penalty_weight)
 
             my_sum += to_add
     return my_sum
-- 
2.43.0


From ede8eda8cfd3a2928b0aa29998a9247bf27b30f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:18 +0000
Subject: [PATCH 32/64] fix: orthotropy penalties of a structure when
 parameters are given

---
 src/guidelines/ipo_oopo.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index a398171..9c41e43 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -243,22 +243,18 @@ def calc_penalty_ipo_oopo_mp(
     - cummul_sec_mom_areas: sum of the second moments of areas of the plies
     retrieved so far + the current plies
     """
-    if parameters is None:
-        calculate_penalty = True
-
     n_panels = lampam.shape[0]
     penalties_ipo = np.zeros((n_panels,), dtype=float)
     penalties_oopo = np.zeros((n_panels,), dtype=float)
-    if calculate_penalty:
-        for ind_panel in range(n_panels):
-            # penalty for in-plane orthotropy
-            if constraints.ipo and penalty_ipo_switch:
-                penalties_ipo[ind_panel] = (
-                    abs(lampam[ind_panel][2]) + abs(lampam[ind_panel][3])) / 2
-            # penalty for out-of-plane orthotropy
-            if constraints.oopo:
-                penalties_oopo[ind_panel] = (
-                    abs(lampam[ind_panel][10]) + abs(lampam[ind_panel][11])) / 2
+    for ind_panel in range(n_panels):
+        # penalty for in-plane orthotropy
+        if constraints.ipo and penalty_ipo_switch:
+            penalties_ipo[ind_panel] = (
+                abs(lampam[ind_panel][2]) + abs(lampam[ind_panel][3])) / 2
+        # penalty for out-of-plane orthotropy
+        if constraints.oopo:
+            penalties_oopo[ind_panel] = (
+                abs(lampam[ind_panel][10]) + abs(lampam[ind_panel][11])) / 2
     return cummul_areas * penalties_ipo, cummul_sec_mom_areas * penalties_oopo
 
 
-- 
2.43.0


From 0a1a56a6d3a14db2feee092b82577f5bca387515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:20 +0000
Subject: [PATCH 33/64] fix: out-of-plane orthotropy penalty of a list of one
 laminate

---
 src/guidelines/ipo_oopo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index 9c41e43..59d973e 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -272,8 +272,8 @@ def calc_penalty_oopo_ss(lampam, constraints, cummul_sec_mom_areas=1):
     retrieved so far + the current plies
     """
         
-    if (isinstance(lampam, list) and len(lampam) > 1) or lampam.ndim == 2:
-        if (isinstance(lampam, list) and len(lampam) > 1):
+    if isinstance(lampam, list) or lampam.ndim == 2:
+        if isinstance(lampam, list):
             n_ss = len(lampam)
         else:
             n_ss = lampam.shape[0]
-- 
2.43.0


From 4c29546272b934311a3f305538c387a16ac9a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 34/64] fix: orthotropy penalties of single-panel structures

---
 src/guidelines/ipo_oopo.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index 59d973e..10d7db8 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -259,6 +259,40 @@ def calc_penalty_ipo_oopo_mp(
 
 
 
+def calc_penalty_ipo_oopo_ss(
+        lampam,
+        constraints,
+        parameters=None,
+        mat=0,
+        cummul_areas=1,
+        cummul_sec_mom_areas=1):
+    """
+    calculates penalties for in-plane and out-of plane orthotropy based
+    lamination parameters for a single-panel structure
+
+    INPUTS
+
+    - lampam: lamination parameters of a laminate or of several laminates
+    - constraints: design and maufacturing constraints
+    - parameters: optimiser parameters
+    - mat: material properties of the laminae
+    - cummul_areas: sum of the areas of the plies retrieved so far + the
+    current plies
+    - cummul_sec_mom_areas: sum of the second moments of areas of the plies
+    retrieved so far + the current plies
+    """
+    penalty_ipo_switch = parameters is None or parameters.penalty_ipo_switch
+    penalties_ipo, penalties_oopo = calc_penalty_ipo_oopo_mp(
+        lampam.reshape((-1, lampam.shape[-1])),
+        constraints,
+        penalty_ipo_switch=penalty_ipo_switch,
+        cummul_areas=cummul_areas,
+        cummul_sec_mom_areas=cummul_sec_mom_areas)
+    if lampam.ndim == 1:
+        return penalties_ipo[0], penalties_oopo[0]
+    return penalties_ipo, penalties_oopo
+
+
 def calc_penalty_oopo_ss(lampam, constraints, cummul_sec_mom_areas=1):
     """
     calculates penalties for out-of plane orthotropy based lamination
-- 
2.43.0


From 9e520530a0ab05c65d623c3e8f190e2ffc4e058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:15 +0000
Subject: [PATCH 35/64] fix: middle plies in the ply-drop layouts of the panels
 that have one

---
 src/BELLA/pdl_group.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index d7f2f94..246f876 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -167,18 +167,18 @@ def randomly_pdl_guide(
 #        print('new_pdl')
 #        print(new_pdl)
 
+        # Formatting the ply drop layout so that a ply drop scheme is
+        # associated to each panel boundary
+        new_pdl = ply_drops_at_each_boundaries(
+            new_pdl, n_ply_drops_unique, indices_unique, n_ply_drops)
+
+        # Adding the middle plies (dropped in the panels without middle ply)
         if last_group and has_middle_ply:
-            middle = -(middle_ply_indices[:-1] != 0).astype(int)
+            middle = -(middle_ply_indices == 0).astype(int)
 #            print('middle', middle)
             middle = middle.reshape((new_pdl.shape[0], 1))
 #            print('middle', middle)
             new_pdl = np.hstack((new_pdl, middle))
-
-
-        # Formatting the ply drop layout so that a ply drop scheme is
-        # associated to each panel boundary
-        new_pdl = ply_drops_at_each_boundaries(
-            new_pdl, n_ply_drops_unique, indices_unique, n_ply_drops)
         # <class 'numpy.ndarray'>
 #        print('new_pdl')
 #        print(new_pdl)
-- 
2.43.0


From bbdf65c6d719e74157178e064e0938c42e8a1322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 36/64] fix: keep the middle plies when reading a layout from a
 stacking sequence table

---
 src/BELLA/pdl_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index 5100c79..126560a 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -270,13 +270,13 @@ def input_pdl_from_sst(sst, multipanel, constraints):
         if constraints.n_covering == 1:
             pdl_before_cummul[0] = np.matlib.repmat(
                 np.array([0], dtype=int), multipanel.n_panels, 1)
-            sst_to_mod = sst_to_mod[:, 1:sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, 1:(sst.shape[1] + 1) // 2]
         elif constraints.n_covering == 2:
             pdl_before_cummul[0] = np.matlib.repmat(
                 np.array([0, 1], dtype=int), multipanel.n_panels, 1)
-            sst_to_mod = sst_to_mod[:, 2:sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, 2:(sst.shape[1] + 1) // 2]
         else:
-            sst_to_mod = sst_to_mod[:, :sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, :(sst.shape[1] + 1) // 2]
 
         for ind_panel in range(sst_to_mod.shape[0]):
             counter = 0
-- 
2.43.0


From 9340b4caf8aa1b3838647c64c8d2f4e3a7c3dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 37/64] fix: replace the worst of the stored ply-drop layouts,
 not the best

---
 src/BELLA/pdl_group.py | 2 +-
 src/BELLA/pdl_ini.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index 246f876..242a8c2 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -250,7 +250,7 @@ def randomly_pdl_guide(
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_spacing_imperfect)
+                    indexx = np.argmax(p_spacing_imperfect)
                     pdl_imperfect[indexx] = new_pdl
                     p_spacing_imperfect[indexx] = p_spacing
             else:
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index a4b7142..122b56c 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -160,7 +160,7 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_pdls_imperfect)
+                    indexx = np.argmax(p_pdls_imperfect)
                     pdls_imperfect[indexx] = new_pdl
                     p_pdls_imperfect[indexx] = new_penalty_spacing
             else:
-- 
2.43.0


From 8a98eb0dc70d562b6f2cf362b48bac09e4c71b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:21 +0000
Subject: [PATCH 38/64] fix: no repeated ply-drop layout nor crash when the
 time limit is reached

---
 src/BELLA/optimiser.py | 5 +++--
 src/BELLA/pdl_group.py | 5 +++--
 src/BELLA/pdl_ini.py   | 7 ++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index b8d152e..4146b0e 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -72,11 +72,12 @@ def BELLA_optimiser(
     else:
         # read initial ply-drop layouts
         pdls_ini = read_pdls_excel(filename_initial_pdls)
-        # number of initial ply drops to be tested
-        parameters.n_ini_ply_drops = len(pdls_ini)
         # check the correct number of plies and panels in the ply drop layouts
         check_pdls_ini(multipanel, pdls_ini)
 
+    # number of initial ply drops to be tested
+    parameters.n_ini_ply_drops = len(pdls_ini)
+
     ### preparation of the step 3 of BELLA
 
     # division of the plies of the panels into one ply group
diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index 242a8c2..88fc5da 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -291,11 +291,12 @@ Too many ply drops between two adjacent panels.""")
 
 
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, n_pdl_max):
+        n_pdl = min(n_pdl, ind_perfect + ind_imperfect)
+        for ind in range(ind_perfect, n_pdl):
             indexx = np.argmin(p_spacing_imperfect)
             pdl_perfect[ind] = pdl_imperfect[indexx]
             p_spacing_imperfect[indexx] = 10e6
 
-        return pdl_perfect
+        return pdl_perfect[:n_pdl]
     # if enough manufacturable ply drop layouts have been found
     return pdl_perfect
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 122b56c..506ef7f 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -194,17 +194,18 @@ No conform ply drop layout can be generated.
 Too many ply drops between two adjacent panels.""")
 
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, parameters.n_ini_ply_drops):
+        n_pdls = min(parameters.n_ini_ply_drops, ind_perfect + ind_imperfect)
+        for ind in range(ind_perfect, n_pdls):
             indexx = np.argmin(p_pdls_imperfect)
             pdls_perfect[ind] = pdls_imperfect[indexx]
             p_pdls_imperfect[indexx] = 10e6
 
         print('    ' + str(ind_perfect) \
           + ' feasible intial ply-drop layouts generated.')
-        print('    ' + str(parameters.n_ini_ply_drops - ind_perfect) \
+        print('    ' + str(n_pdls - ind_perfect) \
           + ' infeasible intial ply-drop layouts generated.')
 
-        return pdls_perfect
+        return pdls_perfect[:n_pdls]
 
     # if enough manufacturable ply drop layouts have been found
     print('    ' + str(parameters.n_ini_ply_drops) \
-- 
2.43.0


From 34db329015e1eec2844ffcd5cbe50452e905b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:51 +0000
Subject: [PATCH 39/64] fix: no negative number of missing +-45 plies in the
 repair for the 10% rule

---
 src/RELAY/repair_10_bal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index 90b1f7a..451009b 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -367,8 +367,8 @@ def repair_10_bal_2(ss_ini, mini_10, constraints):
 #    print('initial ply queue', ply_queue)
 
     if constraints.rule_10_percent and constraints.percent_45_135:
-        missing_extra_45_135 = ma.ceil(mini_10[4]) \
-        - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3])
+        missing_extra_45_135 = max(0, ma.ceil(mini_10[4]) \
+        - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3]))
     else:
         missing_extra_45_135 = 0
 
-- 
2.43.0


From 2f20f73ebd9cc5981b8d0b5edc2ff34d880cedf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:32 +0000
Subject: [PATCH 40/64] fix: outermost ply left out as intended in the inwards
 repair with two outer plies fixed

---
 src/RELAY/repair_from_outside_sym.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/repair_from_outside_sym.py b/src/RELAY/repair_from_outside_sym.py
index 394d164..e77b10a 100644
--- a/src/RELAY/repair_from_outside_sym.py
+++ b/src/RELAY/repair_from_outside_sym.py
@@ -67,7 +67,7 @@ def repair_diso_contig_from_outside_sym(
                     and constraints.dam_tol_rule in {2, 3}:
                         mini = max(1,
                                    stack_test.size - constraints.n_contig - 1)
-                    if not hasattr(constraints, 'dam_tol_rule') and \
+                    elif not hasattr(constraints, 'dam_tol_rule') and \
                     constraints.n_plies_dam_tol == 2:
                         mini = max(1,
                                    stack_test.size - constraints.n_contig - 1)
@@ -102,7 +102,7 @@ def repair_diso_contig_from_outside_sym(
                         and constraints.dam_tol_rule in {2, 3}:
                             mini = max(1,
                                        stack_test.size - constraints.n_contig - 1)
-                        if not hasattr(constraints, 'dam_tol_rule') and \
+                        elif not hasattr(constraints, 'dam_tol_rule') and \
                         constraints.n_plies_dam_tol == 2:
                             mini = max(1,
                                        stack_test.size - constraints.n_contig - 1)
@@ -160,7 +160,7 @@ def repair_diso_contig_from_outside_sym(
         if hasattr(constraints, 'dam_tol_rule') \
         and constraints.dam_tol_rule in {2, 3}:
             mini = max(1, stack.size - real_n_D1 - 1)
-        if not hasattr(constraints, 'dam_tol_rule') and \
+        elif not hasattr(constraints, 'dam_tol_rule') and \
         constraints.n_plies_dam_tol == 2:
             mini = max(1, stack.size - real_n_D1 - 1)
         else:
-- 
2.43.0


From ad2dcef99c70fa3648a268e49d8f8204b6bf57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:46 +0000
Subject: [PATCH 41/64] fix: all plies that can form a block with the central
 plies checked in the inwards repair

---
 src/RELAY/repair_from_outside_sym.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/RELAY/repair_from_outside_sym.py b/src/RELAY/repair_from_outside_sym.py
index e77b10a..362af46 100644
--- a/src/RELAY/repair_from_outside_sym.py
+++ b/src/RELAY/repair_from_outside_sym.py
@@ -159,14 +159,14 @@ def repair_diso_contig_from_outside_sym(
     if constraints.dam_tol:
         if hasattr(constraints, 'dam_tol_rule') \
         and constraints.dam_tol_rule in {2, 3}:
-            mini = max(1, stack.size - real_n_D1 - 1)
+            mini = max(1, stack.size - constraints.n_contig - 1)
         elif not hasattr(constraints, 'dam_tol_rule') and \
         constraints.n_plies_dam_tol == 2:
-            mini = max(1, stack.size - real_n_D1 - 1)
+            mini = max(1, stack.size - constraints.n_contig - 1)
         else:
-            mini = max(0, stack.size - real_n_D1 - 1)
+            mini = max(0, stack.size - constraints.n_contig - 1)
     else:
-        mini = max(0, stack.size - real_n_D1 - 1)
+        mini = max(0, stack.size - constraints.n_contig - 1)
 
     for elem in itertools.permutations(
         range(real_n_D1)):
@@ -175,12 +175,9 @@ def repair_diso_contig_from_outside_sym(
         stack_test = np.hstack((stack[mini:], ss_group))
         if ss.size % 2:
             stack_test = np.hstack((
-                stack_test, ss[ss.size // 2],
-                np.flip(stack_test[-real_n_D1:])))
+                stack_test, ss[ss.size // 2], np.flip(stack_test)))
         else:
-            stack_test = np.hstack((
-                stack_test,
-                np.flip(stack_test[-real_n_D1:])))
+            stack_test = np.hstack((stack_test, np.flip(stack_test)))
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
-- 
2.43.0


From 8c5016f7ec994c940348f5f8951a1dea50784d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 42/64] fix: central plies taken in their order in the laminate
 in the inwards repair of asymmetric laminates

---
 src/RELAY/repair_from_outside_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index eb35f68..b3dbe69 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -159,6 +159,7 @@ def repair_diso_contig_from_outside_asym(
 #    print_ss(stack_top)
 
     # plies at the centre all designed simultaneously
+    ind_2 = np.sort(ind_2)
     good_permut = []
     real_n_D1 = ind_2.size
     remaining_plies = np.empty((real_n_D1,), int)
@@ -186,7 +187,6 @@ def repair_diso_contig_from_outside_asym(
         mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
         mini_top = min(stack_bottom.size, real_n_D1 + 1)
 
-    ind_2 = np.sort(ind_2)
     for elem in itertools.permutations(
         range(real_n_D1)):
 #        print('elem', elem)
-- 
2.43.0


From 505e200416c1323a6db16c804334dd42cd50e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:09 +0000
Subject: [PATCH 43/64] fix: whole blocks next to the central plies checked and
 outermost plies exempted in the inwards repair of asymmetric laminates

---
 src/RELAY/repair_from_outside_asym.py | 31 ++++++++++-----------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index b3dbe69..2cc9de9 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -44,6 +44,9 @@ def repair_diso_contig_from_outside_asym(
 #    print('ind_1', ind_1)
 #    print('ind_2', ind_2)
 
+    # number of outermost plies exempted from the contiguity rule
+    outer = stack_top.size - 1
+
     ind_step = -1
     for ind_step, ind_ply_1 in enumerate(ind_1):
         ind_2_mod = modify_indices(ind_2, ind_ply_1, bottom=ind_step % 2 == 0)
@@ -64,7 +67,7 @@ def repair_diso_contig_from_outside_asym(
                             constraints.delta_angle):
                         continue
                     if constraints.contig and not is_contig(
-                            stack_test[:2*constraints.n_contig],
+                            stack_test[:stack_test.size - outer][:2*constraints.n_contig],
                             constraints.n_contig):
                         continue
                     stack_bottom = stack_test
@@ -78,7 +81,7 @@ def repair_diso_contig_from_outside_asym(
                             constraints.delta_angle):
                         continue
                     if constraints.contig and not is_contig(
-                            stack_test[-2*constraints.n_contig:],
+                            stack_test[outer:][-2*constraints.n_contig:],
                             constraints.n_contig):
                         continue
                     stack_top = stack_test
@@ -101,7 +104,7 @@ def repair_diso_contig_from_outside_asym(
                                 constraints.delta_angle):
                             continue
                         if constraints.contig and not is_contig(
-                                stack_test[:2*constraints.n_contig],
+                                stack_test[:stack_test.size - outer][:2*constraints.n_contig],
                                 constraints.n_contig):
                             continue
                         stack_bottom = stack_test
@@ -123,7 +126,7 @@ def repair_diso_contig_from_outside_asym(
                                 constraints.delta_angle):
                             continue
                         if constraints.contig and not is_contig(
-                                stack_test[-2*constraints.n_contig:],
+                                stack_test[outer:][-2*constraints.n_contig:],
                                 constraints.n_contig):
                             continue
                         stack_top = stack_test
@@ -171,28 +174,16 @@ def repair_diso_contig_from_outside_asym(
 #    print('remaining_plies', remaining_plies)
 
 
-    if constraints.dam_tol:
-        if hasattr(constraints, 'dam_tol_rule') \
-        and constraints.dam_tol_rule in {2, 3}:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
-        if not hasattr(constraints, 'dam_tol_rule') and \
-        constraints.n_plies_dam_tol == 2:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
-        else:
-            mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size, real_n_D1 + 1)
-    else:
-        mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-        mini_top = min(stack_bottom.size, real_n_D1 + 1)
+    # outermost plies not checked when two outer plies are fixed
+    mini_top = max(outer, stack_top.size - constraints.n_contig - 1)
+    maxi_bottom = min(stack_bottom.size - outer, constraints.n_contig + 1)
 
     for elem in itertools.permutations(
         range(real_n_D1)):
 #        print('elem', elem)
         ss_group = remaining_plies[np.array(elem, int)]
         stack_test = np.hstack((
-            stack_top[mini_bottom:], ss_group, stack_bottom[:mini_top]))
+            stack_top[mini_top:], ss_group, stack_bottom[:maxi_bottom]))
 #        print('stack_test', stack_test)
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
-- 
2.43.0


From 29df28ac9b3b64b4c42ca8ab5d775df6383bef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:28 +0000
Subject: [PATCH 44/64] fix: bottom plies of thin laminates checked in the
 outwards repair of asymmetric laminates

---
 src/RELAY/repair_from_inside_asym.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/RELAY/repair_from_inside_asym.py b/src/RELAY/repair_from_inside_asym.py
index 4aaff64..a06f743 100644
--- a/src/RELAY/repair_from_inside_asym.py
+++ b/src/RELAY/repair_from_inside_asym.py
@@ -196,16 +196,15 @@ def repair_diso_contig_from_inside_asym(
         if constraints.contig and not is_contig(
                 stack_test_1, constraints.n_contig_c):
             continue
-        number = stack_test.size - 4 - real_n_D1 \
-        - constraints.n_contig
-        if number > 0:
-            stack_test_2 = stack_test[number:]
-            if constraints.diso and not is_diso_ss(
-                    stack_test_2, constraints.delta_angle, dam_tol=False):
-                continue
-            if constraints.contig and not is_contig(
-                    stack_test_2, constraints.n_contig_c):
-                continue
+        number = max(0, stack_test.size - 4 - real_n_D1 \
+        - constraints.n_contig)
+        stack_test_2 = stack_test[number:]
+        if constraints.diso and not is_diso_ss(
+                stack_test_2, constraints.delta_angle, dam_tol=False):
+            continue
+        if constraints.contig and not is_contig(
+                stack_test_2, constraints.n_contig_c):
+            continue
         good_permut.append(np.array(elem, int))
 #    print('good_permut', good_permut)
 
-- 
2.43.0


From d638300dc6357d345fd6736f9c3e8cbd6bdab629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:38 +0000
Subject: [PATCH 45/64] fix: in-plane lamination parameters of the initial
 lay-up kept in the list returned by the refinement

---
 src/RELAY/repair_membrane_1_ipo.py    | 2 +-
 src/RELAY/repair_membrane_1_no_ipo.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index aa88414..3456103 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -78,7 +78,7 @@ def repair_membrane_1_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 8094363..fcbf720 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -65,7 +65,7 @@ def repair_membrane_1_no_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
-- 
2.43.0


From 4bd1c4717646307117d5188cf9f1bd6bdd98d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:38 +0000
Subject: [PATCH 46/64] fix: rejected modification discarded in the refinement
 with the 10% rule of Abdalla

---
 src/RELAY/repair_membrane_1_ipo_Abdalla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 9f07780..85fcef8 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -113,7 +113,7 @@ def repair_membrane_1_ipo_Abdalla(
         LPs = lampamA + lampamA_options[ind_pos_angle2] - lampamA_options[
             ind_pos_angle1]
         if calc_distance_Abdalla(LPs, constraints) > 1e-10:
-            objA_options[ind_angle1, ind_angle2] = 1e10
+            objA_options[ind_pos_angle1, ind_pos_angle2] = 1e10
             continue
 
 #        print('objA_options after clean', objA_options)
-- 
2.43.0


From 91442c335fbc7298b8f3b6a4435bc20c7e2c7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:38 +0000
Subject: [PATCH 47/64] fix: combined limit for the +45 and -45 plies kept in
 the refinement of laminates which are not balanced

---
 src/RELAY/repair_membrane_1_no_ipo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index fcbf720..3d11f99 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -99,6 +99,10 @@ def repair_membrane_1_no_ipo(
             continue
 
         # attention to not break the 10% rule
+        if angle1 in {45, -45} and not angle2 in {45, -45} \
+        and excess_10[4] < 1:
+            objA_options[ind_angle1, ind_angle2] = 1e10
+            continue
         if angle1 == 0:
             if excess_10[0] < 1:
                 objA_options[ind_angle1, ind_angle2] = 1e10
@@ -119,6 +123,10 @@ def repair_membrane_1_no_ipo(
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
             excess_10[3] -= 1
+        if angle1 in {45, -45} and not angle2 in {45, -45}:
+            excess_10[4] -= 1
+        elif angle2 in {45, -45} and not angle1 in {45, -45}:
+            excess_10[4] += 1
 
 #        print(angle1, ' plies changed into ', angle2, 'plies')
 #        print('ind_angle1', ind_angle1, 'ind_angle2', ind_angle2)
-- 
2.43.0


From 67455a01e24d737291df2a38f32e6def0484991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:01 +0000
Subject: [PATCH 48/64] fix: functions of repair_10_bal imported where the
 in-plane refinement uses them

---
 src/RELAY/repair_membrane_1_ipo.py    | 1 +
 src/RELAY/repair_membrane_1_no_ipo.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index 3456103..15cd71b 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -23,6 +23,7 @@ from src.RELAY.repair_10_bal import calc_mini_10
 from src.RELAY.repair_membrane_1_no_ipo import calc_excess_10
 from src.RELAY.repair_10_bal import calc_ind_plies
 from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_1
 from src.guidelines.ten_percent_rule import is_ten_percent_rule
 
 def repair_membrane_1_ipo(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 3d11f99..28f745f 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -22,6 +22,9 @@ from src.LAYLA_V02.constraints import Constraints
 from src.divers.pretty_print import print_ss
 from src.CLA.lampam_functions import calc_lampam
 from src.RELAY.repair_10_bal import calc_mini_10
+from src.RELAY.repair_10_bal import calc_ind_plies
+from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_3
 from src.RELAY.repair_tools import RepairError
 
 def repair_membrane_1_no_ipo(
-- 
2.43.0


From 8f8fc03ad2a9f43baa2758b502beee31d45f2d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:19 +0000
Subject: [PATCH 49/64] fix: positions of swapped blocks counted from one in
 the out-of-plane refinement

---
 src/RELAY/repair_flexural_1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 999c430..4ddf74f 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -98,8 +98,8 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
                 new_lampamDs[index] = lampamD + calc_delta_lampamD_swap_1(
                     angle_first=block_1.angle,
                     angle_second=list_blocks[index_block_2].angle,
-                    n_first_ply=block_1.first_ply_pos,
-                    n_second_ply=list_blocks[index_block_2].first_ply_pos,
+                    n_first_ply=block_1.first_ply_pos + 1,
+                    n_second_ply=list_blocks[index_block_2].first_ply_pos + 1,
                     n_plies_group=block_1.n_block_of_plies,
                     n_plies=n_plies,
                     constraints=constraints)
-- 
2.43.0


From 63235b74821d93b701d8b3386123c7ec32dd6a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:19 +0000
Subject: [PATCH 50/64] fix: outer plies for damage tolerance never swapped in
 the out-of-plane refinement

---
 src/RELAY/repair_flexural_1.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 4ddf74f..bd8dfe5 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -74,14 +74,18 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
     # out-of-plane properties
     for index_block_1 in range(len(list_blocks[:-1])):
         block_1 = list_blocks[index_block_1]
-        if status_dam_tol[block_1.first_ply_pos]:
+        if status_dam_tol[
+                block_1.first_ply_pos:
+                block_1.first_ply_pos + block_1.n_block_of_plies].any():
             continue
 #        if block_1.distance_middle < 0.5:
 #            break
         ind_possible_swap = []
         for index_block_2, block_2 \
         in enumerate(list_blocks[index_block_1 + 1:]):
-            if status_dam_tol[list_blocks[index_block_2].first_ply_pos]:
+            if status_dam_tol[
+                    block_2.first_ply_pos:
+                    block_2.first_ply_pos + block_2.n_block_of_plies].any():
                 continue
             if block_1.n_block_of_plies == block_2.n_block_of_plies \
             and block_2.angle in block_1.possible_angles \
-- 
2.43.0


From 0a994b0c97fd2e7689abd9cdffb2cdd89fcf502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:19 +0000
Subject: [PATCH 51/64] fix: laminates with all plies in one direction accepted
 by find_list_blocks

---
 src/RELAY/repair_flexural_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index de48154..433b3f6 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -343,6 +343,8 @@ def find_list_blocks(ss_ref, n_plies, constraints):
             ind_start = n_plies // 2 - 1
             while ss_ref[ind_start] == ss_ref[n_plies // 2]:
                 ind_start -= 1
+                if ind_start < 0: # all the plies in the same direction
+                    return []
         else:
             ind_start = n_plies // 2 - 1
     else:
-- 
2.43.0


From c2d6bc10b789f002b1478057e933259088fdb29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:58 +0000
Subject: [PATCH 52/64] fix: contiguity of the outermost plies exempted by
 damage tolerance not checked in the out-of-plane refinement

---
 src/RELAY/repair_flexural.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/RELAY/repair_flexural.py b/src/RELAY/repair_flexural.py
index f588248..c6abd43 100644
--- a/src/RELAY/repair_flexural.py
+++ b/src/RELAY/repair_flexural.py
@@ -96,8 +96,17 @@ def repair_flexural(
                             n_plies_dam_tol=constraints.n_plies_dam_tol):
                         raise Exception('Disorientation rule not satisfied')
 
+                # the outermost plies are exempted when two plies are fixed for
+                # damage tolerance
+                if constraints.dam_tol \
+                and (constraints.dam_tol_rule in {2, 3}
+                     if hasattr(constraints, 'dam_tol_rule')
+                     else constraints.n_plies_dam_tol == 2):
+                    ss_contig = ss[1:-1]
+                else:
+                    ss_contig = ss
                 if constraints.contig and not is_contig(
-                        ss, constraints.n_contig):
+                        ss_contig, constraints.n_contig):
                     raise Exception('Contiguity rule not satisfie')
 
                 # changes ply block sizes
-- 
2.43.0


From f8aa048937075e11973394f59a3f87ef6be222eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:58 +0000
Subject: [PATCH 53/64] fix: n_D2 ply shifts tested in repair_flexural_2 as
 documented, one included

---
 src/RELAY/repair_flexural_2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_2.py b/src/RELAY/repair_flexural_2.py
index 646a77b..f5e35f5 100644
--- a/src/RELAY/repair_flexural_2.py
+++ b/src/RELAY/repair_flexural_2.py
@@ -110,10 +110,10 @@ def repair_flexural_2(
     for index, ind_ply_1 in enumerate(ind_2[:-1]):
 #        print('ind_ply_1', ind_ply_1)
 
-        objD = 1e10 * np.ones((parameters.n_D2 - 1,), float)
+        objD = 1e10 * np.ones((parameters.n_D2,), float)
 
         for ind_loc, ind_ply_2 \
-        in enumerate(ind_2[index + 1:index + parameters.n_D2]):
+        in enumerate(ind_2[index + 1:index + 1 + parameters.n_D2]):
 
 #            print('    ind_ply_2', ind_ply_2)
 
-- 
2.43.0


From 62a12aefd4e25197e2512305c9d5ecd03ce08a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 54/64] fix: middle ply kept among the neighbours of the
 innermost block in the out-of-plane refinement

---
 src/RELAY/repair_flexural_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index 433b3f6..629646e 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -319,6 +319,8 @@ class Block():
                     if block2.ID == block1.ID + 1 \
                     or block2.ID == block1.ID - 1:
                         block1.neighbour_angles.append(block2.angle)
+                if block1.ID == 0 and midply is not None:
+                    block1.neighbour_angles.append(midply)
                 block1.calc_possible_angles(constraints)
 
 
-- 
2.43.0


From 1c366a2d1e9b8060809f8cc3daadaadc112c9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:03 +0000
Subject: [PATCH 55/64] fix: repair of a laminate reported unsuccessful when
 guidelines cannot be met

---
 src/RELAY/repair_ss.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/RELAY/repair_ss.py b/src/RELAY/repair_ss.py
index 5a13d91..e967078 100644
--- a/src/RELAY/repair_ss.py
+++ b/src/RELAY/repair_ss.py
@@ -102,6 +102,15 @@ def repair_ss(
         parameters.n_D1)
 #    print('completed_inward, completed_outward, ind',
 #          completed_inward, completed_outward, ind)
+    if completed_outward:
+        # the 10% rule and balance cannot be satisfied by any lay-up with too
+        # few plies, some plies possibly left undefined
+        try:
+            if (ss == 666).any():
+                raise Exception('Undefined plies')
+            check_lay_up_rules(ss, constraints)
+        except Exception:
+            completed_outward = False
     if not completed_outward:
 #        print('unsuccessful repair for disorientation and/or contiguity')
         if obj_no_constraints is None:
-- 
2.43.0


From 2deca71005dc37688be3b156824a4607952219de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:03 +0000
Subject: [PATCH 56/64] fix: objective function value returned by repair_ss for
 repaired lay-ups

---
 src/RELAY/repair_ss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/repair_ss.py b/src/RELAY/repair_ss.py
index e967078..23ece70 100644
--- a/src/RELAY/repair_ss.py
+++ b/src/RELAY/repair_ss.py
@@ -21,6 +21,7 @@ sys.path.append(r'C:\BELLA')
 from src.LAYLA_V02.parameters import Parameters
 from src.LAYLA_V02.constraints import Constraints
 from src.LAYLA_V02.objectives import objectives
+from src.LAYLA_V02.targets import Targets
 from src.divers.pretty_print import print_ss, print_list_ss
 from src.RELAY.repair_10_bal import repair_10_bal
 from src.RELAY.repair_10_bal import calc_mini_10
@@ -150,14 +151,14 @@ def repair_ss(
     #--------------------------------------------------------------------------
     obj_no_constraints = objectives(
         lampam=calc_lampam(ss, constraints),
-        lampam_target=lampam_target,
+        targets=Targets(n_plies=ss.size, lampam=lampam_target),
         lampam_weightings=parameters.lampam_weightings_final,
         constraints=constraints,
         parameters=parameters)
     if count_obj:
-        return ss, True, 1e10, n_obj_func_D_calls
+        return ss, True, obj_no_constraints, n_obj_func_D_calls
     else:
-        return ss, True, 1e10
+        return ss, True, obj_no_constraints
 
 if __name__ == "__main__":
     print('\n*** Test for the function repair_ss ***')
-- 
2.43.0


From a9b7118d97afbc43b9f80a76b2d5b9d50708153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:03 +0000
Subject: [PATCH 57/64] fix: beam search asks repair_ss for the number of
 objective function calls

---
 src/LAYLA_V02/beam_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 2f57cb4..fbcc9bc 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -298,7 +298,8 @@ def beam_search(
 #                    print_ss(ss)
 #                    print('obj_no_constraints ', obj_no_constraints )
                     ss, success_repair, n_obj_func_D_calls = repair_ss(
-                        ss, constraints, parameters, targets.lampam, True)
+                        ss, constraints, parameters, targets.lampam,
+                        count_obj=True)
 #                    results.n_obj_func_calls += n_obj_func_D_calls
 #                    print('repair successful?', success_repair)
 #                    print('after repair')
-- 
2.43.0


From f658117a0164eb5a350ea6dcc5324e483886d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 58/64] fix: thin-to-thick repair crashed copying the set of
 fibre orientations

---
 src/RELAY/thin_to_thick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 70ae860..d934a31 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -211,7 +211,7 @@ def repair_thin_to_thick(
                 # print('one_pd_index', one_pd_index)
 
                 ### branching for ply orientation of new ply
-                child_angle = np.copy(constraints.set_of_angles, int)
+                child_angle = np.array(constraints.set_of_angles, int)
 
                 ### pruning for balance
                 if constraints.bal:
-- 
2.43.0


From f08f25b3f307cc80752f02f55f7a8037463cf845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 59/64] fix: lamination parameters and objectives associated to
 the right layouts in the repair of the panels

---
 src/RELAY/thick_to_thin.py | 7 +++++++
 src/RELAY/thin_to_thick.py | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 78b66fb..1704cf1 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -417,6 +417,13 @@ def repair_thick_to_thin(
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
 
+            # the ply drop layouts were examined from the last to the first
+            tab_child_n_plies_per_angle.reverse()
+            tab_child_lampam.reverse()
+            tab_child_penalty_diso.reverse()
+            tab_child_obj_no_constraints.reverse()
+            tab_child_obj_constraints.reverse()
+
 
             ### local pruning for the other guidelines and stiffness optimality
             indices_to_keep = []
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index d934a31..41aea8c 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -470,6 +470,12 @@ def repair_thin_to_thick(
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
 
+            # the ply drop layouts were examined from the last to the first
+            tab_child_n_plies_per_angle.reverse()
+            tab_child_lampam.reverse()
+            tab_child_obj_no_constraints.reverse()
+            tab_child_obj_constraints.reverse()
+
             ### local pruning for the other guidelines and stiffness optimality
             indices_to_keep = []
             tab_child_obj_constraints_for_pruning \
-- 
2.43.0


From f7ae31bc47f38a64f4eefadc97829c44e99d82c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 60/64] fix: effective test of the lamination parameters after
 the repair of the panels

---
 src/RELAY/thick_to_thin.py | 4 ++--
 src/RELAY/thin_to_thick.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 1704cf1..5efd733 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -642,8 +642,8 @@ def repair_thick_to_thin(
     ## test for the partial lamination parameters
     reduced_lampam_test = calc_lampam(
         reduced_ss[0: multipanel.reduced.ind_ref], constraints)
-    if not abs(reduced_lampam[0: multipanel.reduced.ind_ref] \
-               - reduced_lampam_test).all() < 1e-13:
+    if not (abs(reduced_lampam[0: multipanel.reduced.ind_ref] \
+                - reduced_lampam_test) < 1e-13).all():
         raise Exception("""
 beam search does not return group lamination parameters matching
 the group stacking sequences.""")
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 41aea8c..0035570 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -670,7 +670,7 @@ def repair_thin_to_thick(
 
     ## test for the partial lamination parameters
     reduced_lampam_test = calc_lampam(reduced_ss, constraints)
-    if not abs(reduced_lampam - reduced_lampam_test).all() < 1e-13:
+    if not (abs(reduced_lampam - reduced_lampam_test) < 1e-13).all():
         raise Exception("""
 beam search does not return group lamination parameters matching
 the group stacking sequences.""")
-- 
2.43.0


From 5a619470646015b4a96cd85ef64d5eb51039e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 61/64] fix: repair of the reference panel reported
 unsuccessful when guidelines cannot be met

---
 src/RELAY/repair_reference_panel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/RELAY/repair_reference_panel.py b/src/RELAY/repair_reference_panel.py
index 904939c..24875a3 100644
--- a/src/RELAY/repair_reference_panel.py
+++ b/src/RELAY/repair_reference_panel.py
@@ -84,6 +84,15 @@ def repair_reference_panel(
     ss_ref, completed_inward, completed_outward, ind = repair_diso_contig_list(
         ss_ref_list, ply_queue_list, constraints,
         parameters.n_D1)
+    if completed_outward:
+        # the 10% rule and balance cannot be satisfied by any lay-up with too
+        # few plies, some plies possibly left undefined
+        try:
+            if (ss_ref == 666).any():
+                raise Exception('Undefined plies')
+            check_lay_up_rules(ss_ref, constraints)
+        except Exception:
+            completed_outward = False
     if not completed_outward:
 
         reduced_sst = convert_ss_ref_to_reduced_sst(
-- 
2.43.0


From 683fad3566c7b4df6b3c11190e98b97f3ec3d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 62/64] fix: ply drop layout returned with the repaired
 multi-panel design

---
 src/RELAY/repair_mp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/RELAY/repair_mp.py b/src/RELAY/repair_mp.py
index 66818c6..f7cf29d 100644
--- a/src/RELAY/repair_mp.py
+++ b/src/RELAY/repair_mp.py
@@ -104,5 +104,10 @@ Reference stacking sequence modified during blending step 4.3""")
         if reduced_ss[ind_panel].size != panel.n_plies:
             raise Exception("""Wrong ply counts in the laminate.""")
 
+    # ply drop layout of the repaired design
+    reduced_pdl = np.array([[-1 if elem == -1 else ind \
+                             for ind, elem in enumerate(line)] \
+                            for line in reduced_sst])
+
 #    print('Blending step 4 successful')
     return True, reduced_ss, reduced_sst, reduced_pdl, 4
-- 
2.43.0


From d111832766a7bcb655156bb9bdd46c66b8776d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:52 +0000
Subject: [PATCH 63/64] fix: damage tolerance pruning of BELLA for asymmetric
 laminates

---
 src/BELLA/pruning.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index 4fb19d0..29cda77 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -51,15 +51,9 @@ def pruning_diso_contig_damtol(
 
     if constraints.dam_tol:
 
-        if level == 0:
-            for ind in range(child_ss.size)[:: -1]:
-                if child_ss[ind] not in my_set:
-                    child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-            if child_ss.size == 0:
-                return None
-            return child_ss
-
-        elif not constraints.sym and level == n_plies_to_optimise - 1:
+        # plies of asymmetric laminates are placed from both outer surfaces
+        # inwards, alternately at the bottom (even levels) and top (odd levels)
+        if level == 0 or (level == 1 and not constraints.sym):
             for ind in range(child_ss.size)[:: -1]:
                 if child_ss[ind] not in my_set:
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
@@ -69,7 +63,8 @@ def pruning_diso_contig_damtol(
 
         if constraints.dam_tol_rule in [2, 3]:
 
-            if level == 1:
+            if (constraints.sym and level == 1) \
+            or (not constraints.sym and level == 2):
 
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
@@ -92,7 +87,7 @@ def pruning_diso_contig_damtol(
                     return None
                 return child_ss
 
-            if level == n_plies_to_optimise - 2 and not constraints.sym:
+            if level == 3 and not constraints.sym:
 
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
-- 
2.43.0


From 420e8d0576c2982a43aa71c3ccb3add756409391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:52 +0000
Subject: [PATCH 64/64] fix: contiguity pruning of BELLA for the top part of
 asymmetric laminates

---
 src/BELLA/pruning.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index 29cda77..ace72e0 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -167,6 +167,19 @@ def pruning_diso_contig_damtol(
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
                         continue
 
+            # asymmetric laminate top part
+            else:
+
+                for ind in range(child_ss.size)[:: -1]:
+                    #   externally with mother_ss_top
+                    test, _ = external_contig(
+                        angle=np.array((child_ss[ind],)),
+                        n_plies_group=1,
+                        constraints=constraints,
+                        ss_before=np.flip(mother_ss_top, axis=0))
+                    if test.size == 0:
+                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
+                        continue
 
         # last ply
         else:
-- 
2.43.0

