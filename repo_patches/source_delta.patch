From 8e23c53fe177cc06f6a4391d2a03ee9581c50286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 01/16] fix: a seeded simulation draws from its own random
 generator

---
 source_py/simulation/percolation_sq_lattice.py     | 14 ++++++++++++--
 .../simulation/percolation_sq_lattice_L1L2.py      |  9 ++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index a3dc87f..8a9f386 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -17,9 +17,11 @@ class Percolation:
         # print(log_str)
         logging.info(log_str)
         length = kwargs['length']
+        # a seeded simulation draws from its own generator, so that nothing else in the process can disturb its sequence
+        self.seeded_random = None
         if "seed" in kwargs.keys():
             print("Custom seeding. Testing mode")
-            random.seed(kwargs['seed'])
+            self.seeded_random = random.Random(kwargs['seed'])
             pass
         self.lattice_ref = Lattice(length)
         self.cluster_pool_ref = ClusterPool()
@@ -27,6 +29,14 @@ class Percolation:
         self.pc_site_count_wrapping_cluster = None
         pass
 
+    def get_random(self):
+        """
+        source of random numbers: own generator if a seed was given, the shared random module otherwise
+        """
+        if self.seeded_random is not None:
+            return self.seeded_random
+        return random
+
     def reset(self):
         self.lattice_ref.reset()
         self.cluster_pool_ref.reset()
@@ -208,7 +218,7 @@ class SitePercolation(Percolation):
         if self.do_shuffle:
             # print("SitePercolation:shuffle")
             # print("warning ! shuffle off")
-            random.shuffle(self.site_ids_indices)
+            self.get_random().shuffle(self.site_ids_indices)
             # print("id order : ", self.site_ids_indices)
             for i in range(len(self.site_ids_indices)):
                 a = self.site_ids_indices[i]
diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 9065cbf..f13ce68 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -1,5 +1,4 @@
 from source_py.simulation import lattice, cluster
-import random
 from source_py.simulation.index import *
 import logging
 from source_py.simulation.percolation_sq_lattice import SitePercolation
@@ -85,7 +84,7 @@ class SitePercolationL1(SitePercolation):
         if self.current_idx >= self.lattice_ref.site_count:
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
-        rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
+        rnd = self.get_random().randint(self.current_idx, len(self.site_ids_indices) - 1)
         # print("randomly_selected_site ", rnd)
         central_X = self.site_ids_indices[rnd]
         if self.lattice_ref.get_site_by_id(central_X).is_occupied():
@@ -95,7 +94,7 @@ class SitePercolationL1(SitePercolation):
             # sites = self.get_four_neighbor_sites(central_X)
             sites = self.lattice_ref.get_all_neighbor_sites(central_X)
             # print("four neighbors ", sites)
-            central2 = sites[random.randint(0, len(sites)-1)]
+            central2 = sites[self.get_random().randint(0, len(sites)-1)]
             if self.lattice_ref.get_site_by_id(central2).is_occupied():
                 # print("first neighbor is occupied")
                 self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()
@@ -196,12 +195,12 @@ class SitePercolationL2(SitePercolation):
         if self.current_idx >= self.lattice_ref.site_count:
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
-        rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
+        rnd = self.get_random().randint(self.current_idx, len(self.site_ids_indices) - 1)
         central_X = self.site_ids_indices[rnd]
         Z_id = central_X
         if self.lattice_ref.get_site_by_id(central_X).is_occupied():
             sites = self.lattice_ref.get_all_neighbor_sites(central_X)
-            Y_id = sites[random.randint(0, len(sites) - 1)]
+            Y_id = sites[self.get_random().randint(0, len(sites) - 1)]
             Z_id = Y_id
             # print("X is occupied")
             self.x_occupied += 1
-- 
2.43.0


From f3bef091fe5cac3d60d932d6ccfc579393ed9fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 02/16] fix: keep an own copy of a custom site sequence instead
 of shuffling the caller's list

---
 source_py/simulation/percolation_sq_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 8a9f386..f7d25c8 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -172,7 +172,7 @@ class SitePercolation(Percolation):
         if max(site_id_list) > max_index or min(site_id_list) < min_index:
             print("Invalid site id list")
             return
-        self.site_ids_indices = site_id_list
+        self.site_ids_indices = list(site_id_list)  # own copy, it may be shuffled
         self.mode_custome_site_id = True
         self.do_shuffle = do_shuffle
         self.max_iteration_limit = len(site_id_list)
-- 
2.43.0


From 9dda6ece1995f8468aa063f00e02324b1a0b9d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 03/16] fix: record the occupation probability in every
 realization, so that the result table stays aligned

---
 source_py/simulation/percolation_sq_lattice.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index f7d25c8..e865da7 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -269,9 +269,7 @@ class SitePercolation(Percolation):
         self.occupied_site_count = 0
         self.selection_flag = None
         # print("Initial entropy ", self.entropy_value)
-        if self.first_run:
-            self.occupation_prob_list = list()
-            pass
+        self.occupation_prob_list = list()
         del self.entropy_list
         self.entropy_list = list()
         del self.order_wrapping_list
@@ -686,9 +684,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
@@ -750,9 +746,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
-- 
2.43.0


From 20e003a0356f8a655a46ccd5d34f70cde41b58ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 04/16] fix: L2 follows the direction across the periodic edge

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index f13ce68..f04e0c9 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -213,7 +213,8 @@ class SitePercolationL2(SitePercolation):
                 X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
                 Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
                 delta_X = Y_index - X_index
-                delta_X.normalize()
+                # the step from X to Y may cross the periodic edge
+                delta_X = self.wrapping_correction_relative_index(RelativeIndex(index=delta_X))
                 # print(delta_X, " delta X = Y - X => Y ", Y_index, " - ", X_index)
                 Z_index = Y_index + delta_X
                 # print("Z_index ", Z_index)
-- 
2.43.0


From 6779276a8217a88562ff081598198d22c76a59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 05/16] fix: reset can be repeated after it was interrupted

---
 source_py/simulation/percolation_sq_lattice.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index e865da7..ba51759 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -270,11 +270,8 @@ class SitePercolation(Percolation):
         self.selection_flag = None
         # print("Initial entropy ", self.entropy_value)
         self.occupation_prob_list = list()
-        del self.entropy_list
         self.entropy_list = list()
-        del self.order_wrapping_list
         self.order_wrapping_list = list()
-        del self.order_largest_list
         self.order_largest_list = list()
         pass
 
-- 
2.43.0


From 08b5aa1d3ee6fee15c4860cded8185715200f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 06/16] fix: four nearest neighbours of a site are reported
 without the site itself

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index f04e0c9..75f9c00 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -55,10 +55,7 @@ class SitePercolationL1(SitePercolation):
             tmp = self.lattice_ref.get_neighbor_sites(bb)
             sites += tmp
             pass
-        for ss in sites:
-            if ss == central:
-                sites.remove(ss)
-                pass
+        sites = [ss for ss in sites if ss != central]
         assert len(sites) == 4
         # pytest. check distance between sites
         # central_site = self.lattice_ref.get_site_by_id(central)
-- 
2.43.0


From 6c47135597f9491d93a4f2f158c8abd266947cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 07/16] fix: L1 and L2 report the site sequences in the order
 of occupation

---
 .../simulation/percolation_sq_lattice_L1L2.py | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 75f9c00..3980c4a 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -28,6 +28,12 @@ class SitePercolationL1(SitePercolation):
         self.x_occupied = 0
         self.site_id_sequence_record = []
 
+    def get_site_id_sequence(self):
+        """
+        site ids in the order of occupation
+        """
+        return self.site_id_sequence_record
+
     def get_index_sequence(self):
         indices = []
         for id in self.site_id_sequence_record:
@@ -143,6 +149,8 @@ class SitePercolationL2(SitePercolation):
         self.signature += "L2_"
         self.x_occupied = 0
         self.y_occupied = 0
+        # Once the sequece is recorded, we can use it in regular site percolation. To check the outcomes.
+        self.site_id_sequence_record = []
         # print("SitePercolationL2.init")
         logging.info("SitePercolationL2.init")
         pass
@@ -152,6 +160,21 @@ class SitePercolationL2(SitePercolation):
         self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))
         self.x_occupied = 0
         self.y_occupied = 0
+        self.site_id_sequence_record = []
+
+    def get_site_id_sequence(self):
+        """
+        site ids in the order of occupation
+        """
+        return self.site_id_sequence_record
+
+    def get_index_sequence(self):
+        indices = []
+        for id in self.site_id_sequence_record:
+            idx = self.lattice_ref.get_site_by_id(id).get_index()
+            indices.append(idx.as_list())
+            pass
+        return indices
 
     def get_signature(self):
         return self.signature
@@ -234,6 +257,7 @@ class SitePercolationL2(SitePercolation):
         # self.swap_ids(central_X, central)
         # print("central ", Z_id)
         self.selected_id = Z_id
+        self.site_id_sequence_record.append(self.selected_id)
         self.current_site = self.lattice_ref.get_site_by_id(self.selected_id)
         assert self.current_site.get_gid() == -1  # must be unoccupied
         # print("selected id ", self.selected_id)
-- 
2.43.0


From 17bda039a50130bdb4f883666c7e2e43d6c81571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 08/16] fix: shortest path: notice a straight line that joins
 the wrapping cluster with another cluster

---
 .../percolation_sq_lattice_shortest_path.py           | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice_shortest_path.py b/source_py/simulation/percolation_sq_lattice_shortest_path.py
index fa36402..0e3dc62 100644
--- a/source_py/simulation/percolation_sq_lattice_shortest_path.py
+++ b/source_py/simulation/percolation_sq_lattice_shortest_path.py
@@ -34,6 +34,7 @@ class ShortestPathAfter_pc(SitePercolation):
         # sq_lattice_p.viewLattice(3)
         # sq_lattice_p.viewCluster()
         # print("get_occupation_prob_array ", self.get_occupation_prob_array())
+        wrapping_site_count = 0
         while self.place_one_site():
             # print("self.selection_flag ", self.selection_flag)
             # self.viewLattice(3)
@@ -43,8 +44,16 @@ class ShortestPathAfter_pc(SitePercolation):
                     # scan rows and columns of the current site to find the shortest path of same gid
                     index = self.current_site.get_index()
                     column_flag, row_flag = self.scan_row_col_of_selected_site(index)
+                    line_flag = column_flag or row_flag
 
-                    if column_flag or row_flag:
+                    # a complete row or column may also have joined the wrapping cluster together with another cluster
+                    site_count = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
+                    if not line_flag and site_count - wrapping_site_count > self.lattice_ref.length:
+                        line_flag = self.scan_all_rows() or self.scan_all_cols()
+                        pass
+                    wrapping_site_count = site_count
+
+                    if line_flag:
                         # print("Got to the shortest path point by placing ", self.current_site)
                         # self.viewLattice(1)
                         # self.viewLattice(2)
-- 
2.43.0


From a8ed484abd5a8c2e22eb897d86134b7681c9ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 09/16] fix: create the output directories before writing
 results into them

---
 main.py                         | 2 ++
 run_py/ensemble.py              | 4 ++++
 run_py/rsbd_percolatioin_run.py | 2 ++
 run_py/shortest_path_run.py     | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/main.py b/main.py
index 5397382..d883f15 100644
--- a/main.py
+++ b/main.py
@@ -5,6 +5,7 @@ from run_py.rsbd_percolatioin_run import run_simulation_threads_v3, run_simulati
 from run_py.shortest_path_run import *
 from source_py.simulation import percolation_sq_lattice_L0
 import logging
+import os
 
 
 def print_hi():
@@ -56,6 +57,7 @@ def init_logging():
     # logging to a file
     now = datetime.now()
     current_time = now.strftime("%Y%m%d_%H%M%S")
+    os.makedirs("./logs", exist_ok=True)
     filename = "./logs/" + "run_simulation_threads_v4-log-" + current_time + ".txt"
     logging.basicConfig(filename=filename, level=logging.DEBUG)
 
diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index fbca2f9..c88eee5 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -4,6 +4,7 @@ import json
 import numpy as np
 import time
 import logging
+import os
 
 def run_ensemble_entropy_order(percolationClass, length, ensembleSize, interaction=0):
     """
@@ -68,6 +69,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['desc'] = ["p=occupation probability", "H=entropy",
                     "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
     header_str = json.dumps(head)
+    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
@@ -89,6 +91,7 @@ def write_critical_values(current_time, data, ensembleSize, length, now, signatu
     head['columns'] = ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"]
     head['desc'] = ["pc=critical ocupation probability"]
     header_str = json.dumps(head)
+    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
@@ -150,6 +153,7 @@ def run_ensemble_entropy_order_threads(percolationClass, length, ensembleSize, t
                     "P2=order parameter by wrapping cluster", "P1=order parameter by largest cluster"]
     header_str = json.dumps(head)
 
+    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 1636886..446f001 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -1,5 +1,6 @@
 import multiprocessing
 import logging
+import os
 from datetime import datetime
 import numpy as np
 import json
@@ -51,6 +52,7 @@ def single_realization(percolationClass, length):
     head['desc'] = ["p=occupation probability", "H=entropy",
                     "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
     header_str = json.dumps(head)
+    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
     with open(filename, 'w') as f:
         f.write(header_str)
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index 4d991e4..0a532bf 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -1,4 +1,5 @@
 from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc
+import os
 import time
 from datetime import datetime
 import json
@@ -42,6 +43,7 @@ def write_p_p_star(current_time, data, ensembleSize, length, now, signature, thr
                     "p*=occupation probability for which the wrapping cluster creates a shortest path for the first "
                     "time"]
     header_str = json.dumps(head)
+    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
-- 
2.43.0


From 52d3240dd99ad830b02073b5fc46fb71ad62d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:12 +0000
Subject: [PATCH 10/16] fix: never store a result over the file of another run
 that finished in the same second

---
 run_py/ensemble.py              | 12 +++++-------
 run_py/result_file.py           | 31 +++++++++++++++++++++++++++++++
 run_py/rsbd_percolatioin_run.py |  7 ++-----
 run_py/shortest_path_run.py     |  5 ++---
 4 files changed, 40 insertions(+), 15 deletions(-)
 create mode 100644 run_py/result_file.py

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index c88eee5..8322773 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -4,7 +4,8 @@ import json
 import numpy as np
 import time
 import logging
-import os
+
+from run_py.result_file import save_result
 
 def run_ensemble_entropy_order(percolationClass, length, ensembleSize, interaction=0):
     """
@@ -69,9 +70,8 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['desc'] = ["p=occupation probability", "H=entropy",
                     "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
     header_str = json.dumps(head)
-    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
-    np.savetxt(filename, data, fmt="%.10e", header=header_str)
+    save_result(filename, lambda f: np.savetxt(f, data, fmt="%.10e", header=header_str))
 
 
 def write_critical_values(current_time, data, ensembleSize, length, now, signature, thread_count=None):
@@ -91,9 +91,8 @@ def write_critical_values(current_time, data, ensembleSize, length, now, signatu
     head['columns'] = ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"]
     head['desc'] = ["pc=critical ocupation probability"]
     header_str = json.dumps(head)
-    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
-    np.savetxt(filename, data, fmt="%.10e", header=header_str)
+    save_result(filename, lambda f: np.savetxt(f, data, fmt="%.10e", header=header_str))
 
 
 def run_ensemble_entropy_order_threads(percolationClass, length, ensembleSize, thread_count=0):
@@ -153,9 +152,8 @@ def run_ensemble_entropy_order_threads(percolationClass, length, ensembleSize, t
                     "P2=order parameter by wrapping cluster", "P1=order parameter by largest cluster"]
     header_str = json.dumps(head)
 
-    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
-    np.savetxt(filename, data, fmt="%.10e", header=header_str)
+    save_result(filename, lambda f: np.savetxt(f, data, fmt="%.10e", header=header_str))
 
 
     pass
diff --git a/run_py/result_file.py b/run_py/result_file.py
new file mode 100644
index 0000000..95ee2c2
--- /dev/null
+++ b/run_py/result_file.py
@@ -0,0 +1,31 @@
+import os
+
+
+def save_result(filename, write):
+    """
+    Stores a result in a file of its own. If the name is taken, by a run that finished in the same second for example,
+    then a number is appended to it.
+    @param filename: desired name, ending with an extension
+    @param write: function that writes the content to the open file it is given
+    @return: the name of the file
+    """
+    directory = os.path.dirname(filename)
+    if directory:
+        os.makedirs(directory, exist_ok=True)
+        pass
+    base, extension = os.path.splitext(filename)
+    target = filename
+    count = 0
+    while True:
+        try:
+            f = open(target, 'x')
+            break
+        except FileExistsError:
+            count += 1
+            target = "{}_{}{}".format(base, count, extension)
+            pass
+        pass
+    with f:
+        write(f)
+        pass
+    return target
diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 446f001..b6cad07 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -1,11 +1,11 @@
 import multiprocessing
 import logging
-import os
 from datetime import datetime
 import numpy as np
 import json
 
 
+from run_py.result_file import save_result
 from source_py.simulation import percolation_sq_lattice_L1L2
 
 def single_realization(percolationClass, length):
@@ -52,11 +52,8 @@ def single_realization(percolationClass, length):
     head['desc'] = ["p=occupation probability", "H=entropy",
                     "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
     header_str = json.dumps(head)
-    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
-    with open(filename, 'w') as f:
-        f.write(header_str)
-        pass
+    save_result(filename, lambda f: f.write(header_str))
 
 
 
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index 0a532bf..e266d0a 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -1,5 +1,5 @@
 from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc
-import os
+from run_py.result_file import save_result
 import time
 from datetime import datetime
 import json
@@ -43,9 +43,8 @@ def write_p_p_star(current_time, data, ensembleSize, length, now, signature, thr
                     "p*=occupation probability for which the wrapping cluster creates a shortest path for the first "
                     "time"]
     header_str = json.dumps(head)
-    os.makedirs("./data", exist_ok=True)
     filename = "./data/" + filename
-    np.savetxt(filename, data, fmt="%.10e", header=header_str)
+    save_result(filename, lambda f: np.savetxt(f, data, fmt="%.10e", header=header_str))
 
 
     pass
-- 
2.43.0


From 7d46cfa758c1ae7ec2e2cbc11df25ec07db075b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:12 +0000
Subject: [PATCH 11/16] fix: give a result file its name only when it is
 complete

---
 run_py/result_file.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/run_py/result_file.py b/run_py/result_file.py
index 95ee2c2..7a1c167 100644
--- a/run_py/result_file.py
+++ b/run_py/result_file.py
@@ -4,7 +4,8 @@ import os
 def save_result(filename, write):
     """
     Stores a result in a file of its own. If the name is taken, by a run that finished in the same second for example,
-    then a number is appended to it.
+    then a number is appended to it. The content is written under a temporary name and gets the final name only when it
+    is complete and safely on the disk.
     @param filename: desired name, ending with an extension
     @param write: function that writes the content to the open file it is given
     @return: the name of the file
@@ -17,15 +18,31 @@ def save_result(filename, write):
     target = filename
     count = 0
     while True:
-        try:
-            f = open(target, 'x')
-            break
-        except FileExistsError:
-            count += 1
-            target = "{}_{}{}".format(base, count, extension)
+        if not os.path.exists(target):
+            try:
+                f = open(target + ".part", 'x')
+            except FileExistsError:
+                pass
+            else:
+                # from here on no other run can take the name
+                if not os.path.exists(target):
+                    break
+                f.close()
+                os.remove(target + ".part")
+                pass
             pass
+        count += 1
+        target = "{}_{}{}".format(base, count, extension)
         pass
-    with f:
-        write(f)
-        pass
+
+    try:
+        with f:
+            write(f)
+            f.flush()
+            os.fsync(f.fileno())
+            pass
+        os.rename(target + ".part", target)
+    except BaseException:
+        os.remove(target + ".part")
+        raise
     return target
-- 
2.43.0


From 893271fac7c0993e661b4ebc052ebd7bff6624b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 12/16] fix: perform the realizations that the division over
 the workers leaves over

---
 run_py/rsbd_percolatioin_run.py | 14 ++++++++++----
 run_py/shortest_path_run.py     |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index b6cad07..e6bd1da 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -59,6 +59,14 @@ def single_realization(percolationClass, length):
 
     pass
 
+def split_ensemble(ensemble_count, thread_counts):
+    """
+    number of realizations of each worker, adding up to ensemble_count. Every worker has at least one.
+    """
+    share, remainder = divmod(ensemble_count, thread_counts)
+    return [share + 1 if i < remainder else share for i in range(min(thread_counts, ensemble_count))]
+
+
 def run_simulation_threads():
     from run_py import ensemble
     lengths = [200, 300, 400]
@@ -108,11 +116,10 @@ def run_simulation_threads_v3(length, ensemble_count, thread):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
 
     all_processes = []
 
-    for i in range(thread_counts):
+    for i, En_per_thread in enumerate(split_ensemble(En, thread_counts)):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
                                           args=(percolationClass, length, En_per_thread, i))
@@ -138,11 +145,10 @@ def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
 
     all_processes = []
 
-    for i in range(thread_counts):
+    for i, En_per_thread in enumerate(split_ensemble(En, thread_counts)):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
                                           args=(percolationClass, length, En_per_thread, i))
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index e266d0a..b9a5bd8 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -1,5 +1,6 @@
 from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc
 from run_py.result_file import save_result
+from run_py.rsbd_percolatioin_run import split_ensemble
 import time
 from datetime import datetime
 import json
@@ -95,11 +96,10 @@ def run_simulation_shortest_path_threads(length, ensemble_count, thread=2):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
 
     all_processes = []
 
-    for i in range(thread_counts):
+    for i, En_per_thread in enumerate(split_ensemble(En, thread_counts)):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble_shortest_path_v2_thread,
                                           args=(percolationClass, length, En_per_thread, i))
-- 
2.43.0


From c77575e833bdb18e3e8dd872f3e061b187963da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 13/16] fix: tell the threads of a thread run which percolation
 to simulate

---
 run_py/rsbd_percolatioin_run.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index e6bd1da..404cd85 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -69,6 +69,8 @@ def split_ensemble(ensemble_count, thread_counts):
 
 def run_simulation_threads():
     from run_py import ensemble
+    from source_py.simulation import percolation_sq_lattice_L0
+    percolationClass = percolation_sq_lattice_L0.SitePercolationL0
     lengths = [200, 300, 400]
     En = 500
 
@@ -78,7 +80,8 @@ def run_simulation_threads():
     all_threads = []
     for LL in lengths:
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(LL, En, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads,
+                        args=(percolationClass, LL, En, i))
         i += 1
         all_threads.append(thread)
         thread.start()
@@ -89,6 +92,8 @@ def run_simulation_threads():
 
 def run_simulation_threads_v2():
     from run_py import ensemble
+    from source_py.simulation import percolation_sq_lattice_L0
+    percolationClass = percolation_sq_lattice_L0.SitePercolationL0
     length = 10
     thread_counts = 2
     En = 1000
@@ -99,7 +104,8 @@ def run_simulation_threads_v2():
     all_threads = []
     for i in range(thread_counts):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(length, En_per_thread, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads,
+                        args=(percolationClass, length, En_per_thread, i))
         all_threads.append(thread)
         thread.start()
         pass
-- 
2.43.0


From d3e1cb0a5684355578a8cacc846f93210514d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 14/16] fix: describe the order parameter columns of the
 entropy file the right way round

---
 run_py/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index 8322773..0f98e08 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -68,7 +68,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     save_result(filename, lambda f: np.savetxt(f, data, fmt="%.10e", header=header_str))
-- 
2.43.0


From 4e345558fcddffc5a05e38794ba4d80b8707dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 15/16] fix: report a failed worker to the caller of a parallel
 run

---
 run_py/rsbd_percolatioin_run.py | 6 ++++++
 run_py/shortest_path_run.py     | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 404cd85..42b8b95 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -136,6 +136,9 @@ def run_simulation_threads_v3(length, ensemble_count, thread):
     for process in all_processes:
         process.join()
         pass
+    failed = [i for i, process in enumerate(all_processes) if process.exitcode != 0]
+    if failed:
+        raise RuntimeError("worker(s) {} of {} failed".format(failed, thread_counts))
 
 def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
     from run_py import ensemble
@@ -165,6 +168,9 @@ def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
     for process in all_processes:
         process.join()
         pass
+    failed = [i for i, process in enumerate(all_processes) if process.exitcode != 0]
+    if failed:
+        raise RuntimeError("worker(s) {} of {} failed".format(failed, thread_counts))
 
 
 def run_simulations():
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index b9a5bd8..19e520f 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -109,4 +109,7 @@ def run_simulation_shortest_path_threads(length, ensemble_count, thread=2):
         pass
     for process in all_processes:
         process.join()
-        pass
\ No newline at end of file
+        pass
+    failed = [i for i, process in enumerate(all_processes) if process.exitcode != 0]
+    if failed:
+        raise RuntimeError("worker(s) {} of {} failed".format(failed, thread_counts))
-- 
2.43.0


From db53246a998bf6a9af62d7b12f7aec3aee4472a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:37 +0000
Subject: [PATCH 16/16] fix: a half-given custom sequence no longer reads past
 its end

set_custome_site_id_list and set_custome_site_index_list replace the
sequence before they store its length. Interrupted in between, the
simulation kept the old length, and after a reset the realization
failed with an IndexError. The end is the end of the list itself.
---
 source_py/simulation/percolation_sq_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index ba51759..f454598 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -357,7 +357,7 @@ class SitePercolation(Percolation):
                  1 -> sites are remaining but current site is not empty
                  -1 -> no remaining empty sites
         """
-        if self.current_idx >= self.max_iteration_limit:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         self.selected_id = self.site_ids_indices[self.current_idx]
-- 
2.43.0

