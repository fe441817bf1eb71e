From bca5044b113b12055cd28b41ef808e256a36595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 01/43] fix: keep the previous currents when updating the
 dispersive memory

---
 python/src/mtl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 21d34eb..c7fd676 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -423,7 +423,7 @@ class MTL():
         
     def advance_current(self):
         self.connectors.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
@@ -917,7 +917,7 @@ class MTLD:
         
     def advance_current(self):
         self.transfer_impedance.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
-- 
2.43.0


From 765f47a9ce6ce75ae1e41befd2b74716f0c7f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 02/43] fix: dispersive memory of off-diagonal (transfer
 impedance) elements

---
 python/src/dispersive.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index ab82ff2..3125e87 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -10,6 +10,7 @@ class Dispersive():
         self.phi = np.zeros(
             shape=(
                 nx,
+                number_of_conductors,
                 number_of_conductors
             ), dtype = np.ndarray
         )
@@ -76,14 +77,15 @@ class Dispersive():
 
     def update_q3_phi_term(self):
         for kz in range(0, self.nx):
-            self.q3_phi_term[kz] = self.v_sum(self.q3[kz].dot(self.phi[kz]))
+            self.q3_phi_term[kz] = self.v_sum(self.q3[kz]*self.phi[kz]).sum(axis=1)
         
     def update_phi(self, i_prev, i_now):
         for kz in range(0, self.nx):
-            self.phi[kz, :] = (
-                self.q1[kz, :, :].dot(i_now[:, kz])+\
-                self.q2[kz, :, :].dot(i_prev[:, kz])+\
-                self.q3[kz, :,:].dot(self.phi[kz, :])
+            # one memory term per (victim, culprit) pair, driven by the culprit's current
+            self.phi[kz] = (
+                self.q1[kz]*i_now[:, kz]+\
+                self.q2[kz]*i_prev[:, kz]+\
+                self.q3[kz]*self.phi[kz]
             )
 
         
@@ -202,7 +204,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[:, j, i] -= np.exp(poles * self.dt)
+                        self.q3[:, j, i] += np.exp(poles * self.dt)
                         
                 if (direction == ("out" or "both")):
                     self.d[:, i, j] -= d
@@ -215,7 +217,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[:, i, j] -= np.exp(poles * self.dt)
+                        self.q3[:, i, j] += np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
@@ -274,7 +276,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, j, i] = -np.exp(poles * self.dt)
+                        self.q3[index, j, i] = np.exp(poles * self.dt)
                         
                 if (direction == ("out" or "both")):
                     self.d[index, i, j] = -d
@@ -287,7 +289,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, i, j] = -np.exp(poles * self.dt)
+                        self.q3[index, i, j] = np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-- 
2.43.0


From b43ac020d4e6f7c4aaf97a752c083bd6388b5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 03/43] fix: transfer impedance direction 'both' couples both
 ways

---
 python/src/dispersive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 3125e87..b1bdb77 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -193,7 +193,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -206,7 +206,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[:, j, i] += np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -265,7 +265,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
                     if (residues.size != 0 and poles.size != 0):
@@ -278,7 +278,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[index, j, i] = np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
                     if (residues.size != 0 and poles.size != 0):
-- 
2.43.0


From 349b685d494ca34ec8627e02a1409f6e7b4564fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 04/43] fix: transfer impedance with several poles

---
 python/src/dispersive.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index b1bdb77..aaf882f 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -197,27 +197,29 @@ class TransferImpedance(Dispersive):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, j, i] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, j, i] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, j, i] += np.exp(poles * self.dt)
+                        for kz in range(self.nx):
+                            self.q1[kz, j, i] += (residues / poles) * (
+                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+                            )
+                            self.q2[kz, j, i] -= (residues / poles) * (
+                                1 / (poles * self.dt)
+                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+                            )
+                            self.q3[kz, j, i] += np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, i, j] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, i, j] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, i, j] += np.exp(poles * self.dt)
+                        for kz in range(self.nx):
+                            self.q1[kz, i, j] += (residues / poles) * (
+                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+                            )
+                            self.q2[kz, i, j] -= (residues / poles) * (
+                                1 / (poles * self.dt)
+                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+                            )
+                            self.q3[kz, i, j] += np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-- 
2.43.0


From e62977114bacbce2e04263fd783feb7d68fd2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 05/43] fix: resistance of a region is given to the right cells
 and conductor

---
 python/src/mtl.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index c7fd676..1138724 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -373,7 +373,6 @@ class MTL():
         self.set_resistance_in_region(position, position, conductor, resistance)
         
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        assert(end >= start)
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -382,15 +381,11 @@ class MTL():
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
-        if (index1 == self.r.shape[0]):
-            index1 -= 1
-        if (index2 == self.r.shape[0]):
-            index2 -= 1
-        
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        assert(index2 >= index1)
+        # cells of the region; a single position takes the cell that starts at it
+        index1 = min(index1, self.r.shape[0] - 1)
+        cells = slice(index1, max(index2, index1 + 1))
+        self.r[cells, conductor, conductor] = resistance/np.sum(np.linalg.norm(self.du[cells], axis=1))
             
         self.update_lr_terms()
 
@@ -962,7 +957,6 @@ class MTLD:
             index, transfer_impedance)
 
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        assert(end >= start)
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -971,10 +965,11 @@ class MTLD:
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        assert(index2 >= index1)
+        # cells of the region; a single position takes the cell that starts at it
+        index1 = min(index1, self.r.shape[0] - 1)
+        cells = slice(index1, max(index2, index1 + 1))
+        self.r[cells, conductor, conductor] = resistance/np.sum(np.linalg.norm(self.du[cells], axis=1))
             
         self.update_lr_terms()
 
-- 
2.43.0


From b37d578ab4685f825ae1a92797e5f85b728b5932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 06/43] fix: conductance of a region is given to the right
 nodes and conductor

---
 python/src/mtl.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 1138724..37f87d7 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -393,19 +393,20 @@ class MTL():
         self.add_conductance_in_region(position, position, conductor, conductance)
         
     def add_conductance_in_region(self, begin, end, conductor, conductance):
-        assert(end >= begin)
-
         if (type(begin) == float):
             begin = np.array([0.0,0.0,begin])
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        index1 = np.argmin(np.abs(self.u - begin))
-        index2 = np.argmin(np.abs(self.u - end))
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
+        index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - begin)))
+        index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+
+        assert(index2 >= index1)
+        # each node carries the conductance of half of the cells it touches
+        du = np.linalg.norm(self.du, axis=1)
+        width = 0.5*(np.append(du, 0.0) + np.append(0.0, du))
+        nodes = slice(index1, index2 + 1)
+        self.g[nodes, conductor, conductor] = conductance/np.sum(width[nodes])
             
         self.update_cg_terms()
 
@@ -974,8 +975,6 @@ class MTLD:
         self.update_lr_terms()
 
     def add_conductance_in_region(self, start, end, conductor, conductance):
-        assert(end >= start)
-
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -983,11 +982,13 @@ class MTLD:
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
-        
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
+
+        assert(index2 >= index1)
+        # each node carries the conductance of half of the cells it touches
+        du = np.linalg.norm(self.du, axis=1)
+        width = 0.5*(np.append(du, 0.0) + np.append(0.0, du))
+        nodes = slice(index1, index2 + 1)
+        self.g[nodes, conductor, conductor] = conductance/np.sum(width[nodes])
             
         self.update_cg_terms()
 
-- 
2.43.0


From 421d5f95ffbe62ef610bc4b2fcb8f1632791fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 07/43] fix: terminal terms follow the time step and end
 conductances of the run

---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 37f87d7..0612d5c 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -587,6 +587,7 @@ class MTL():
 
     def run_until(self, finalTime):
         t = self.get_time_range(finalTime)
+        self.compute_terminal_terms()
         self.update_lr_terms()
         self.update_cg_terms()
 
-- 
2.43.0


From 7f03906d552c0061e4b9a6ab4f0b0b85b325971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 08/43] fix: discretisation of polylines with different
 divisions per segment

---
 python/src/mtl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 0612d5c..1768be2 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -111,10 +111,11 @@ class MTL():
         
         for i, divisions in enumerate(ndiv):
             du = (node_positions[i+1]-node_positions[i])/divisions
+            first = np.sum(ndiv[:i], dtype=int)
             for k in range(divisions):
-                self.u[i*divisions + k]  = node_positions[i]+k*du
-                self.du[i*divisions + k] = du
-                self.du_norm[i*divisions + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
+                self.u[first + k]  = node_positions[i]+k*du
+                self.du[first + k] = du
+                self.du_norm[first + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
         self.u[-1] = node_positions[-1]
 
         self.time = 0.0
-- 
2.43.0


From 24af5459daf0942497db602816ac1ca471e4fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 09/43] fix: one time step for every bundle, network and probe
 of a run

---
 python/src/mtl.py  | 1 +
 python/src/mtln.py | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 1768be2..46e2b81 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -593,6 +593,7 @@ class MTL():
         self.update_cg_terms()
 
         for p in self.probes:
+            p.dt = self.dt
             p.resize_frames(len(t), self.number_of_conductors)
 
         for _ in t:
diff --git a/python/src/mtln.py b/python/src/mtln.py
index 8a47219..944417c 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -65,8 +65,10 @@ class MTLN:
         
         if (dt !=0):
             self.dt = dt
-            for bundle in self.bundles.values():
-                bundle.dt = dt
+        for bundle in self.bundles.values():
+            bundle.dt = self.dt
+            for p in bundle.probes:
+                p.dt = self.dt
         
         self.compute_nw_v_terms()
         
-- 
2.43.0


From f6898979a43d5ce825836c6a902462915cceab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 10/43] fix: add_networks resolves conductor rows like
 add_network

---
 python/src/mtln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 944417c..7337f6c 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -35,7 +35,7 @@ class MTLN:
 
     def add_networks(self, nw: list):
         for n in nw:
-            self.networks.append(n)
+            self.add_network(n)
         
     def get_time_range(self, final_time):
         return np.arange(0, np.floor(final_time / self.dt))
-- 
2.43.0


From 5d6eb2a87121e5a90fe7f897a8b65123b1a9846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 11/43] fix: network rows of same-level lines and of networks
 added again

---
 python/src/networks.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index abda1d4..98ec64c 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -127,6 +127,7 @@ class Network:
         self.connections[connection[0]] = {
             "line_name" : line.name, 
             "line_index" : connection[1], 
+            "conductor" : connection[1], 
             "side" : side_idx, 
             "index": index, 
             "bundle_name" : bundle_name,
@@ -277,7 +278,12 @@ class NetworkD:
             for node in nw.connections.values():
                 bundle = bundles[node["bundle_name"]]
                 conductors_above = sum(bundle.conductors_in_level[0:level])
-                node["line_index"] += conductors_above
+                conductors_before = 0
+                for line in bundle.levels[level]:
+                    if (line.name == node["line_name"]):
+                        break
+                    conductors_before += line.number_of_conductors
+                node["line_index"] = node["conductor"] + conductors_above + conductors_before
 
     def update_sources(self, time, dt):
         for nw in self.levels.values():
-- 
2.43.0


From 9433751c9257d7a1bb61a657b62b6a6c93340679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 12/43] fix: discretise dispersive elements with the time step
 of the run

---
 python/src/dispersive.py | 81 +++++++++++++++++-----------------------
 python/src/mtl.py        | 20 +++++-----
 2 files changed, 43 insertions(+), 58 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index aaf882f..82acde6 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -37,6 +37,10 @@ class Dispersive():
                 number_of_conductors
             ), dtype = np.ndarray
         )
+        # poles and residues of the impedance of each element, which q1, q2 and q3
+        # discretise for the current time step
+        self.poles = np.zeros(self.q1.shape, dtype=object)
+        self.residues = np.zeros(self.q1.shape, dtype=object)
         self.q3_phi_term = np.zeros(
             shape=(
                 nx,
@@ -75,6 +79,28 @@ class Dispersive():
     def v_sum(self,arr:np.ndarray):
         return np.vectorize(np.sum, otypes=[float])(arr)
 
+    def set_poles(self, index, poles, residues):
+        self.poles[index] = poles
+        self.residues[index] = residues
+
+    def set_time_step(self, dt):
+        self.dt = dt
+        for index in np.ndindex(self.poles.shape):
+            poles, residues = self.poles[index], self.residues[index]
+            if np.ndim(poles) == 0:
+                continue
+            self.q1[index] = -(residues / poles) * (
+                1 - (np.exp(poles * dt) - 1) / (poles * dt)
+            )
+            self.q2[index] = (residues / poles) * (
+                1 / (poles * dt)
+                + np.exp(poles * dt) * (1 - 1 / (poles * dt))
+            )
+            self.q3[index] = np.exp(poles * dt)
+
+        self.q1sum = self.v_sum(self.q1)
+        self.q2sum = self.v_sum(self.q2)
+
     def update_q3_phi_term(self):
         for kz in range(0, self.nx):
             self.q3_phi_term[kz] = self.v_sum(self.q3[kz]*self.phi[kz]).sum(axis=1)
@@ -133,17 +159,8 @@ class DispersiveConnector(Dispersive):
         self.e[index, conductor, conductor] += e
 
 
-        self.q1[index, conductor, conductor] -= (residues / poles) * (
-            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-        )
-        self.q2[index, conductor, conductor] += (residues / poles) * (
-            1 / (poles * self.dt)
-            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-        )
-        self.q3[index, conductor, conductor] += np.exp(poles * self.dt)
-
-        self.q1sum = self.v_sum(self.q1)
-        self.q2sum = self.v_sum(self.q2)
+        self.set_poles((index, conductor, conductor), poles, residues)
+        self.set_time_step(self.dt)
 
 
 class TransferImpedance(Dispersive):
@@ -198,31 +215,16 @@ class TransferImpedance(Dispersive):
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
                         for kz in range(self.nx):
-                            self.q1[kz, j, i] += (residues / poles) * (
-                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                            )
-                            self.q2[kz, j, i] -= (residues / poles) * (
-                                1 / (poles * self.dt)
-                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                            )
-                            self.q3[kz, j, i] += np.exp(poles * self.dt)
+                            self.set_poles((kz, j, i), poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
                         for kz in range(self.nx):
-                            self.q1[kz, i, j] += (residues / poles) * (
-                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                            )
-                            self.q2[kz, i, j] -= (residues / poles) * (
-                                1 / (poles * self.dt)
-                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                            )
-                            self.q3[kz, i, j] += np.exp(poles * self.dt)
+                            self.set_poles((kz, i, j), poles, -residues)
 
-        self.q1sum = self.v_sum(self.q1)
-        self.q2sum = self.v_sum(self.q2)
+        self.set_time_step(self.dt)
 
     def set_transfer_impedance_at_index(
         self, 
@@ -271,27 +273,12 @@ class TransferImpedance(Dispersive):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[index, j, i] = (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[index, j, i] = -(residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[index, j, i] = np.exp(poles * self.dt)
+                        self.set_poles((index, j, i), poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[index, i, j] = (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[index, i, j] = -(residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[index, i, j] = np.exp(poles * self.dt)
+                        self.set_poles((index, i, j), poles, -residues)
 
-        self.q1sum = self.v_sum(self.q1)
-        self.q2sum = self.v_sum(self.q2)
+        self.set_time_step(self.dt)
diff --git a/python/src/mtl.py b/python/src/mtl.py
index 46e2b81..5687ed1 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -348,6 +348,7 @@ class MTL():
 
     def update_lr_terms(self):
         
+        self.connectors.set_time_step(self.dt)
         F1 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt + 0.5*self.connectors.d + self.connectors.e/self.dt + 0.5*self.r + self.connectors.q1sum))
         F2 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt - 0.5*self.connectors.d + self.connectors.e/self.dt - 0.5*self.r - self.connectors.q2sum))
         
@@ -625,9 +626,8 @@ class MTLD:
         
 
         
-        q1 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q2 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q3 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
+        poles    = (self.ndiv-1)*[np.ndarray(shape=(0, 0), dtype=object)]
+        residues = (self.ndiv-1)*[np.ndarray(shape=(0, 0), dtype=object)]
         d  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         e  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         
@@ -655,9 +655,8 @@ class MTLD:
                     R[k] = linalg.block_diag(R[k], line.r[k])
                     G[k] = linalg.block_diag(G[k], line.g[k])
                     
-                    q1[k]  = linalg.block_diag(q1[k], line.connectors.q1[k])
-                    q2[k]  = linalg.block_diag(q2[k], line.connectors.q2[k])
-                    q3[k]  = linalg.block_diag(q3[k], line.connectors.q3[k])
+                    poles[k]    = linalg.block_diag(poles[k], line.connectors.poles[k])
+                    residues[k] = linalg.block_diag(residues[k], line.connectors.residues[k])
                     d[k]   = linalg.block_diag(d[k], line.connectors.d[k])
                     e[k]   = linalg.block_diag(e[k], line.connectors.e[k])
                     
@@ -681,14 +680,12 @@ class MTLD:
         self.g[0:self.ndiv] = G[0:self.ndiv]
 
         self.transfer_impedance = TransferImpedance(self.number_of_conductors, self.ndiv - 1, self.u, self.dt)
-        self.transfer_impedance.q1[0:self.ndiv-1] = q1[0:self.ndiv-1]
-        self.transfer_impedance.q2[0:self.ndiv-1] = q2[0:self.ndiv-1]
-        self.transfer_impedance.q3[0:self.ndiv-1] = q3[0:self.ndiv-1]
+        self.transfer_impedance.poles[0:self.ndiv-1] = poles[0:self.ndiv-1]
+        self.transfer_impedance.residues[0:self.ndiv-1] = residues[0:self.ndiv-1]
         self.transfer_impedance.d[0:self.ndiv-1]  = d[0:self.ndiv-1]
         self.transfer_impedance.e[0:self.ndiv-1]  = e[0:self.ndiv-1]
 
-        self.transfer_impedance.q1sum = self.transfer_impedance.v_sum(self.transfer_impedance.q1)
-        self.transfer_impedance.q2sum = self.transfer_impedance.v_sum(self.transfer_impedance.q2)
+        self.transfer_impedance.set_time_step(self.dt)
 
         self.v = np.zeros([self.number_of_conductors, self.ndiv])
         self.i = np.zeros([self.number_of_conductors, self.ndiv-1])
@@ -803,6 +800,7 @@ class MTLD:
 
     def update_lr_terms(self):
         
+        self.transfer_impedance.set_time_step(self.dt)
         F1 = np.einsum('...ij,...jk->...ik' , 
                        self.du_norm, 
                        (self.l/self.dt + 0.5*self.transfer_impedance.d + self.transfer_impedance.e/self.dt + 0.5*self.r + self.transfer_impedance.q1sum))
-- 
2.43.0


From 02c679a299bfb7957511eae8a285de92e13ac61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 13/43] fix: lumped element next to the end of a line

---
 python/src/dispersive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 82acde6..1c27526 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -130,6 +130,7 @@ class DispersiveConnector(Dispersive):
             raise ValueError("Connector position is out of MTL length.")
 
         index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position)))
+        index = min(index, self.nx - 1)
         du = np.linalg.norm(self.u[index+1]-self.u[index])
         
         d = model["cte"]/du
-- 
2.43.0


From bf28bf1d33c1b8f2cb1b1bd935102dff35951d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 14/43] fix: probes accept every point of the line and nothing
 beyond its end

---
 python/src/mtl.py   | 20 +++-----------------
 python/src/utils.py |  4 +++-
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 5687ed1..78ab052 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -20,7 +20,7 @@ from .probes import *
 from .dispersive import TransferImpedance, DispersiveConnector
 from .dispersive import Dispersive
 from .utils import add_t_functions as add, multiply
-from .utils import point_in_line
+from .utils import point_in_polyline
 
 class Field:
     def __init__(self, incident_x: sp.Function, incident_y: sp.Function, incident_z: sp.Function):
@@ -508,7 +508,7 @@ class MTL():
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if not point_in_polyline(position, self.u):
             raise ValueError("Probe position is out of MTL length.")
 
         probe = Probe(position, probe_type, self.dt, self.u)
@@ -776,21 +776,7 @@ class MTLD:
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        start = self.u[0].copy()
-        
-        probe_in_segment = False
-        for du in self.du:
-            end = start + du
-            if point_in_line(position, start, end):
-                probe_in_segment = True
-            start += du
-
-        end = start + du
-        if point_in_line(position, start, end):
-            probe_in_segment = True
-        
-        # if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
-        if not probe_in_segment:
+        if not point_in_polyline(position, self.u):
             raise ValueError("Probe position is out of MTL length.")
 
         probe = Probe(position, probe_type, self.dt, self.u)
diff --git a/python/src/utils.py b/python/src/utils.py
index 687a9fe..2e04dd8 100644
--- a/python/src/utils.py
+++ b/python/src/utils.py
@@ -37,4 +37,6 @@ def point_in_line(point, start, end):
         if (np.linalg.norm(cross) < 1e-6 and np.linalg.norm(start-point) <= line_norm and np.linalg.norm(end-point) <= line_norm):
                 return True
         return False
-        
\ No newline at end of file
+
+def point_in_polyline(point, nodes):
+        return any(point_in_line(point, nodes[k], nodes[k+1]) for k in range(len(nodes)-1))
-- 
2.43.0


From 8dd7c1da5a7953e597f074ddf3bbe3ef78ee0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 15/43] fix: lumped elements and distributed sources on lines
 in any direction

---
 python/src/dispersive.py | 4 +++-
 python/src/mtl.py        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 1c27526..92c2750 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from .utils import point_in_polyline
+
 
 class Dispersive():
     def __init__(self, number_of_conductors, nx, u, dt):
@@ -126,7 +128,7 @@ class DispersiveConnector(Dispersive):
         conductor,
         model :dict 
     ):
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if not point_in_polyline(position, self.u):
             raise ValueError("Connector position is out of MTL length.")
 
         index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position)))
diff --git a/python/src/mtl.py b/python/src/mtl.py
index 78ab052..249bb0f 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -712,7 +712,7 @@ class MTLD:
             end = np.array([0.0,0.0,end])
 
         for position in [start,end]:
-            if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+            if not point_in_polyline(position, self.u):
                 raise ValueError("Probe position is out of MTL length.")
 
         start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
-- 
2.43.0


From 30d4b03187f03726cf9d1af04cf10ed86a9fc02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 16/43] fix: sign of the capacitor equation of LCpRs
 terminations

---
 python/src/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 98ec64c..315dfdf 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -157,15 +157,15 @@ class Network:
         index = self.connections[node]["index"]
         x_index = self.connections[node]["state_index"]
         assert (R >= 0 and L >= 0 and C<1e22)
-        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[1/(R*C),1/C],[-1/L, 0.0]])
-        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),1/C],[-1/L, 0.0]])
+        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
         self.P1[index, index] = -1/R
 
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
+            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
-- 
2.43.0


From cb70a50b8af27afd5139b48bc1b3459a9c985152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 17/43] fix: a clean copy starts without dispersive memory

---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 249bb0f..bfbd3e5 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -542,6 +542,7 @@ class MTL():
         r.v.fill(0.0)
         r.i.fill(0.0)
         r.time = 0.0
+        r.connectors.phi.fill(0.0)
         return r
 
     def add_dispersive_connector(
-- 
2.43.0


From 2b2c8cbbc10cb17939114c84d46272f2532e0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 18/43] fix: networks see the shunt conductance and incident
 field of their lines

---
 python/src/mtln.py     |  1 +
 python/src/networks.py | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 7337f6c..2755d2d 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -42,6 +42,7 @@ class MTLN:
 
     def compute_nw_v_terms(self):
         for nw in self.networks:
+            nw.update_line_terms(self.bundles)
             nw.compute_v_terms(self.dt)
 
     def update_probes(self):
diff --git a/python/src/networks.py b/python/src/networks.py
index 315dfdf..e536efe 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -19,6 +19,7 @@ class Network:
         self.number_of_state_vars = 0
         self.connections : Dict[int, Dict[str, int, int, int, str]] = {}
         self.c : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
+        self.g : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
         self.nw_v = np.zeros([0])
         self.nw_i = np.zeros([0])
         self.dx : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
@@ -101,6 +102,7 @@ class Network:
             side_idx = -1
 
         self.c = linalg.block_diag(self.c, nw_conn[0].c[side_idx])
+        self.g = linalg.block_diag(self.g, nw_conn[0].g[side_idx])
         
         def order_by_conductor(conn):
             return conn[1]
@@ -237,6 +239,15 @@ class Network:
         self.X = self.H[self.number_of_nodes:]
 
        
+    def update_line_terms(self, lines):
+        for node in self.connections.values():
+            line = lines[node["bundle_name"]]
+            row, side, index = node["line_index"], node["side"], node["index"]
+            self.e_T[index] = line.e_T[row, side]
+            for other in self.connections.values():
+                if (other["bundle_name"] == node["bundle_name"] and other["side"] == side):
+                    self.g[index, other["index"]] = line.g[side][row, other["line_index"]]
+
     def update_voltages(self, lines):
         for node in self.connections.values():
             lines[node["bundle_name"]].v[node["line_index"],node["side"]] = self.nw_v[node["index"]]
@@ -253,11 +264,11 @@ class Network:
 
     def compute_v_terms(self, dt):
         self.A = np.block([
-            [self.dx.dot(self.c) / dt - self.P1 - self.Q1 / dt     ,  -self.O                            ],
+            [self.dx.dot(self.c / dt + self.g / 2) - self.P1 - self.Q1 / dt     ,  -self.O               ],
             [-dt * self.N1                                         ,  np.eye(self.M.shape[0]) - dt*self.M]
         ])
         self.B1 = np.block([
-            [self.dx.dot(self.c) / dt - self.Q1 / dt   ,   np.zeros(self.O.shape)],
+            [self.dx.dot(self.c / dt - self.g / 2) - self.Q1 / dt   ,   np.zeros(self.O.shape)],
             [np.zeros(self.N1.shape)                   ,   np.eye(self.M.shape[0])]
         ])
         self.B2 = np.block([
@@ -293,6 +304,10 @@ class NetworkD:
         for nw in self.levels.values():
             nw.advance_voltage(dt)
 
+    def update_line_terms(self, bundles):
+        for nw in self.levels.values():
+            nw.update_line_terms(bundles)
+
     def update_voltages(self, bundles):
         for nw in self.levels.values():
             nw.update_voltages(bundles)
-- 
2.43.0


From 6605359657f93a4292ad0e4e328d6a9f8e469840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 19/43] fix: branches sharing a network node add up, each with
 its own source

---
 python/src/networks.py | 45 +++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index e536efe..8590f77 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -7,7 +7,6 @@ from types import FunctionType
 from typing import Dict
 
 import src.mtl as mtl
-from src.utils import add_t_functions as add
 
 class Network:
     """
@@ -136,23 +135,31 @@ class Network:
             "state_index" : state_index
         }
             
+    def _add_source(self, Vt):
+        # each source has its own column, so that branches sharing a node do not mix
+        self.v_sources = np.append(self.v_sources, Vt)
+        self.Ps = np.pad(self.Ps, ((0, 0), (0, 1)))
+        self.Qs = np.pad(self.Qs, ((0, 0), (0, 1)))
+        self.Ns = np.pad(self.Ns, ((0, 0), (0, 1)))
+        return len(self.v_sources) - 1
+
     def connect_to_ground(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
 
     def connect_to_ground_R(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
 
     def connect_to_ground_LCpRs(self, node: int, R = 0, L = 0, C = 0, Vt = 0):
         assert(node in self.connections.keys())
@@ -162,26 +169,26 @@ class Network:
         self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),1/C],[-1/L, 0.0]])
         self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
-        self.P1[index, index] = -1/R
+        self.P1[index, index] += -1/R
 
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
+            self.Ns[x_index[0]:x_index[-1]+1, source] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (C != 0):
-            self.Q1[index, index] = -C
+            self.Q1[index, index] += -C
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Qs[index, index] = C
+            source = self._add_source(Vt)
+            self.Qs[index, source] = C
 
     def short_to_ground(self, node: int):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
-        self.P1[index, index] = -1e10
+        self.P1[index, index] += -1e10
             
     def connect_nodes(self, node1: int, node2: int, R, Vt = 0):
         assert(node1 in self.connections.keys() and node2 in self.connections.keys())
@@ -194,11 +201,9 @@ class Network:
             self.P1[index2, index1] += 1/R
             self.P1[index2, index2] += -1/R
             if (Vt != 0):
-                self.Ps[index1, index1] +=  1/R 
-                self.Ps[index2, index2] += -1/R
-                
-                self.v_sources[index1]  = add(self.v_sources[index1],Vt)
-                self.v_sources[index2]  = add(self.v_sources[index2],Vt)
+                source = self._add_source(Vt)
+                self.Ps[index1, source] =  1/R 
+                self.Ps[index2, source] = -1/R
       
     def short_nodes(self, node1: int, node2: int):
         index1 = self.connections[node1]["index"]
-- 
2.43.0


From 1418587e8a96c8dffc43fa9dbc94065da3c555ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 20/43] fix: waveforms do not double at their breakpoints

---
 python/src/waveforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 1a72e93..9d2e284 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -63,11 +63,11 @@ def trapezoidal_wave(x, A, rise_time, fall_time, f0, D):
     t1, t2, t3 = rise_time, rise_time + cte_time, rise_time + cte_time + fall_time
     
     return A*(mod_time/rise_time)*(mod_time <= t1) + \
-           A*(mod_time >= t1 )*(mod_time <= t2) + \
-           (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time >= t2)*(mod_time <= t3)
+           A*(mod_time > t1 )*(mod_time <= t2) + \
+           (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time > t2)*(mod_time <= t3)
 
 def ramp_pulse(x, A, x0):
-    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x >= x0)
+    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x > x0)
 
 
 def ramp_pulse_sp(A, x0):
-- 
2.43.0


From 094d52d64ecf70b998bddd47f08511b6aaf44ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 21/43] fix: incident field of the last node is taken at the
 last node

---
 python/src/mtl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index bfbd3e5..0da013b 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -495,6 +495,7 @@ class MTL():
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
                         l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
+            x0, y0, z0 = self.u[-1,:]
             xi, yi, zi = distances[n, -1, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
@@ -854,6 +855,7 @@ class MTLD:
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
                         l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
+            x0, y0, z0 = self.u[-1,:]
             xi, yi, zi = distances[n, -1, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
-- 
2.43.0


From deefa2c327d46877e42319f4d48d9bb1fadd46a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 22/43] fix: longitudinal incident field is sampled at the
 middle of its cell

---
 python/src/mtl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 0da013b..2e420d0 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -488,8 +488,8 @@ class MTL():
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi + 0.5*self.du[nz,1]).subs(z, z0 + zi + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0 + 0.5*self.du[nz,0]).subs(y, y0 + 0.5*self.du[nz,1]).subs(z, z0 + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
@@ -848,8 +848,8 @@ class MTLD:
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi + 0.5*self.du[nz,1]).subs(z, z0 + zi + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0 + 0.5*self.du[nz,0]).subs(y, y0 + 0.5*self.du[nz,1]).subs(z, z0 + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-- 
2.43.0


From 466bd322015e280231a10274c8e022be945683ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 23/43] fix: transverse incident field along oblique
 displacements

---
 python/src/mtl.py | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 2e420d0..2f060c8 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -33,6 +33,12 @@ class Field:
         assert (np.isclose(np.linalg.norm(du), 1, rtol = 0.01))
         return self.e_x*du[0] + self.e_y*du[1] + self.e_z*du[2]
 
+    def compute_eT_along(self, start: npt.NDArray[np.float64], displacement: npt.NDArray[np.float64]):
+        x, y, z, s = sp.symbols('x y z s')
+        e = self.e_x*displacement[0] + self.e_y*displacement[1] + self.e_z*displacement[2]
+        path = [(c, c0 + s*d) for c, c0, d in zip((x, y, z), start, displacement)]
+        return sp.Integral(sp.sympify(e).subs(path), (s, 0, 1))
+
 class PlaneWave(Field):
     def __init__(self, field :  FunctionType, polar, azimuth, polarization):
         
@@ -486,23 +492,11 @@ class MTL():
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
                 self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi + 0.5*self.du[nz,1]).subs(z, z0 + zi + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
                                                  eL.subs(x,x0 + 0.5*self.du[nz,0]).subs(y, y0 + 0.5*self.du[nz,1]).subs(z, z0 + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
-                self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            x0, y0, z0 = self.u[-1,:]
-            xi, yi, zi = distances[n, -1, :]
-            l = np.abs(np.array([xi,yi,zi]))
-            l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_along(self.u[nz], distances[n, nz]).subs(v, np.max(vu[nz])))
+            self.e_T[n,-1] = sp.lambdify(t, field.compute_eT_along(self.u[-1], distances[n, -1]).subs(v, np.max(vu[-1])))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -846,23 +840,11 @@ class MTLD:
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
                 self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi + 0.5*self.du[nz,1]).subs(z, z0 + zi + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
                                                  eL.subs(x,x0 + 0.5*self.du[nz,0]).subs(y, y0 + 0.5*self.du[nz,1]).subs(z, z0 + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
-                self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            x0, y0, z0 = self.u[-1,:]
-            xi, yi, zi = distances[n, -1, :]
-            l = np.abs(np.array([xi,yi,zi]))
-            l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_along(self.u[nz], distances[n, nz]).subs(v, np.max(vu[nz])))
+            self.e_T[n,-1] = sp.lambdify(t, field.compute_eT_along(self.u[-1], distances[n, -1]).subs(v, np.max(vu[-1])))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From 6ee9c029d30bfe52bcd0a53b3fb2f61eb0238792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 24/43] fix: a localized incident field excites its cells and
 nodes, on lines and bundles alike

---
 python/src/mtl.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 2f060c8..64396cb 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -478,16 +478,16 @@ class MTL():
         assert(distances.shape == (self.number_of_conductors, self.u.shape[0], 3))
         x, y, z, t, v = sp.symbols('x y z t v')
          
-        indices = range(self.u.shape[0] - 1)
+        cells, nodes = range(self.u.shape[0] - 1), range(self.u.shape[0])
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
-            indices = range(start_index, end_index)
+            cells, nodes = range(start_index, end_index), range(start_index, end_index+1)
          
          
         vu = self.get_phase_velocities()
         for n in range(self.number_of_conductors):
-            for nz in indices:
+            for nz in cells:
               
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
@@ -495,8 +495,8 @@ class MTL():
                 self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi + 0.5*self.du[nz,1]).subs(z, z0 + zi + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
                                                  eL.subs(x,x0 + 0.5*self.du[nz,0]).subs(y, y0 + 0.5*self.du[nz,1]).subs(z, z0 + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
-                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_along(self.u[nz], distances[n, nz]).subs(v, np.max(vu[nz])))
-            self.e_T[n,-1] = sp.lambdify(t, field.compute_eT_along(self.u[-1], distances[n, -1]).subs(v, np.max(vu[-1])))
+            for nz in nodes:
+                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_along(self.u[nz], distances[n, nz]).subs(v, np.max(vu[min(nz, len(vu)-1)])))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -827,15 +827,15 @@ class MTLD:
         assert(distances.shape == (self.levels[0][0].number_of_conductors, self.u.shape[0], 3))
         x, y, z, t, v = sp.symbols('x y z t v')
 
-        indices = range(self.u.shape[0] - 1)
+        cells, nodes = range(self.u.shape[0] - 1), range(self.u.shape[0])
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
-            indices = range(start_index, end_index+1)
+            cells, nodes = range(start_index, end_index), range(start_index, end_index+1)
         
         vu = self.get_phase_velocities()
         for n in range(self.levels[0][0].number_of_conductors):
-            for nz in indices:
+            for nz in cells:
               
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
@@ -843,8 +843,8 @@ class MTLD:
                 self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi + 0.5*self.du[nz,1]).subs(z, z0 + zi + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
                                                  eL.subs(x,x0 + 0.5*self.du[nz,0]).subs(y, y0 + 0.5*self.du[nz,1]).subs(z, z0 + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
-                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_along(self.u[nz], distances[n, nz]).subs(v, np.max(vu[nz])))
-            self.e_T[n,-1] = sp.lambdify(t, field.compute_eT_along(self.u[-1], distances[n, -1]).subs(v, np.max(vu[-1])))
+            for nz in nodes:
+                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_along(self.u[nz], distances[n, nz]).subs(v, np.max(vu[min(nz, len(vu)-1)])))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From bc647a174eabcf6a5696113831e7e27af9ee035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 25/43] fix: distributed source covers exactly its region of
 the line

---
 python/src/mtl.py | 66 ++++++++++++-----------------------------------
 1 file changed, 17 insertions(+), 49 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 64396cb..ae50bdf 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -701,6 +701,13 @@ class MTLD:
         self.v_sources.fill(lambda t : 0)
 
 
+    def _distance_along_line(self, position):
+        to_start = np.linalg.norm(position - self.u[:-1], axis=1)
+        to_end = np.linalg.norm(position - self.u[1:], axis=1)
+        lengths = np.linalg.norm(self.du, axis=1)
+        cell = np.argmin(to_start + to_end - lengths)
+        return np.sum(lengths[:cell]) + to_start[cell]
+
     def add_localized_longitudinal_field(self, start: np.ndarray, end: np.ndarray, conductor: int, magnitude, source_type :str):
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
@@ -714,57 +721,18 @@ class MTLD:
         start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         end_index   = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
-        source_factor = {}
-        for index in range(start_index, end_index):
-            source_factor[index]  = 1.0
-        
-        if (np.linalg.norm(np.abs(start - self.u[start_index])) > 1e-10) and start_index != 0:
-            
-            du = start-self.u[start_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[start_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[start_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[start_index]) < 0):
-                    frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                    source_factor[start_index-1] = frac
-                elif (du.dot(self.du[start_index]) > 0):
-                    frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                    source_factor[start_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                source_factor[start_index-1] = frac
-            elif (cross_curr < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                source_factor[start_index] = frac
-                
-        if (np.linalg.norm(np.abs(end - self.u[end_index])) > 1e-10) and end_index != self.u.shape[0]:
-            
-            du = end-self.u[end_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[end_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[end_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[end_index]) < 0):
-                    frac = 1-np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                    source_factor[end_index-1] = frac
-                    source_factor[end_index] = 0.0
-                elif (du.dot(self.du[end_index]) > 0):
-                    frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                    source_factor[end_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                source_factor[end_index-1] = frac
-                source_factor[end_index] = 0.0
-            elif (cross_curr < 1e-10):
-                frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                source_factor[end_index] = frac
-               
+        # fraction of each cell that lies in the region
+        edges = np.append(0.0, np.cumsum(np.linalg.norm(self.du, axis=1)))
+        region_start, region_end = self._distance_along_line(start), self._distance_along_line(end)
+        overlap = np.minimum(edges[1:], region_end) - np.maximum(edges[:-1], region_start)
+        source_factor = {
+            index : overlap[index]/np.linalg.norm(self.du[index])
+            for index in np.nonzero(overlap > 1e-10)[0]
+        }
+
         for index, factor in source_factor.items():
             if (source_type == "Planewave"):
-                self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor/(end_index - start_index)))
+                self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor/max(end_index - start_index, 1)))
             else :
                 self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor))
 
-- 
2.43.0


From b7a74f3ad5ce668a0668f23e2c65758e6ff65167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 26/43] fix: a document may have several lumped elements, on
 any of its cables

---
 python/src/jsonParser.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index f392e95..2d408d1 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -264,18 +264,18 @@ class Parser:
         if len(self._lumped) == 0:
             return
         
-        lumped  = [l for l in self._lumped if l["cable"] == line.name][0]
-        conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
-        
-        try:
-            assert 'model' in list(conn.keys())
-        except:
-            raise Exception('No model has been defined for lumped impedance')    
-        
-        position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
-        conductor = lumped["conductor"]
-       
-        line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
+        for lumped in [l for l in self._lumped if l["cable"] == line.name]:
+            conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
+            
+            try:
+                assert 'model' in list(conn.keys())
+            except:
+                raise Exception('No model has been defined for lumped impedance')    
+            
+            position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
+            conductor = lumped["conductor"]
+           
+            line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
                 
     
     def _addConnectorsResistance(self, line):
-- 
2.43.0


From 230b08889d7832f96a64c095f7a3576079a1811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 27/43] fix: order of the cables of a level does not depend on
 string hashing

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 2d408d1..737eb27 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -329,7 +329,7 @@ class Parser:
             
             for i in range(max([v["level"] for v in graph.vs])+1):
                 bundle_levels[i] = []
-                for name in list(set([v["cable"] for v in graph.vs(level_eq=i)])):
+                for name in list(dict.fromkeys([v["cable"] for v in graph.vs(level_eq=i)])):
                     line = self._buildMTLfromLine(name)
                     
                     self._addConnectorsResistance(line)
-- 
2.43.0


From cbdfd0c1c4bd001274e149c596aeb3f8660564d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 28/43] fix: distributed source drives the cable it names

---
 python/src/jsonParser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 737eb27..4f5200b 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -368,6 +368,8 @@ class Parser:
             if "conductor" in source.keys():
                 conductor = source["conductor"]
                 
+            conductor += self._findFirstConductorOfCable(cable["name"], bundle)
+                
             if (source["type"] == "localized efield drive" or source["type"] == "Planewave"):
                 # cStart = self._coordinates[self._getNodeCoordId(source["elemIds"][0])]
                 # cEnd = self._coordinates[self._getNodeCoordId(source["elemIds"][1])] 
@@ -377,6 +379,14 @@ class Parser:
                                                         magnitude = magnitude,
                                                         source_type = source["type"])
     
+    def _findFirstConductorOfCable(self, name, bundle):
+        first = 0
+        for lines in bundle.levels.values():
+            for line in lines:
+                if line.name == name:
+                    return first
+                first += line.number_of_conductors
+
     def _getCableFromLineName(self, name):
         for cable in self._cables:
             if cable["name"] == name:
-- 
2.43.0


From bf3e311aff8ff1a2c804eeb3a15eb8d531c753bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 29/43] fix: source without a known waveform is null

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 4f5200b..81bac51 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -584,7 +584,7 @@ class Parser:
                 x0 = source["magnitude"]["t0"]
             )
         else:
-            def magnitude(t): lambda t : 0
+            def magnitude(t): return 0
             
         return magnitude
 
-- 
2.43.0


From 54422db8bd2dee8242a54af6c3fa844e03c1e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 30/43] fix: termination of a group of conductors in any order

---
 python/src/jsonParser.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 81bac51..7ef9dc7 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -502,33 +502,33 @@ class Parser:
                                                             c["sources"][0])
                     
                     elif len(c["nodes"]) > 1:
-                        for node, conductor in zip(c["nodes"], c["conductors"]):
-                            if (c["connectors"][conductor]["connectorType"] == "MultiwireConnector"):
+                        for node, conductor, connector, source in zip(c["nodes"], c["conductors"], c["connectors"], c["sources"]):
+                            if (connector["connectorType"] == "MultiwireConnector"):
                                 
-                                if "resistanceVector" in c["connectors"][conductor].keys():
-                                    R = c["connectors"][conductor]["resistanceVector"][conductor]
+                                if "resistanceVector" in connector.keys():
+                                    R = connector["resistanceVector"][conductor]
                                 else:
                                     R = 0
-                                if "capacitanceVector" in c["connectors"][conductor].keys():
-                                    C = c["connectors"][conductor]["capacitanceVector"][conductor]
+                                if "capacitanceVector" in connector.keys():
+                                    C = connector["capacitanceVector"][conductor]
                                 else:
                                     C = 1e22
-                                if "inductanceVector" in c["connectors"][conductor].keys():
-                                    L = c["connectors"][conductor]["inductanceVector"][conductor]
+                                if "inductanceVector" in connector.keys():
+                                    L = connector["inductanceVector"][conductor]
                                 else:
                                     L = 0
 
-                                if (c["connectors"][conductor]["connections"][conductor] == "Conn_short"):
+                                if (connector["connections"][conductor] == "Conn_short"):
                                     network.short_to_ground(node)
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_R" or 
-                                      c["connectors"][conductor]["connections"][conductor] == "Conn_sRLC"):
-                                    network.connect_to_ground_R(node, R, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_LCpRs"):
-                                    network.connect_to_ground_LCpRs(node, R ,L, C, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_C"):
-                                    network.connect_to_ground_C(node, C, c["sources"][conductor])
+                                elif (connector["connections"][conductor] == "Conn_R" or 
+                                      connector["connections"][conductor] == "Conn_sRLC"):
+                                    network.connect_to_ground_R(node, R, source)
+                                elif (connector["connections"][conductor] == "Conn_LCpRs"):
+                                    network.connect_to_ground_LCpRs(node, R ,L, C, source)
+                                elif (connector["connections"][conductor] == "Conn_C"):
+                                    network.connect_to_ground_C(node, C, source)
                                 # if R != 0:
-                                #     network.connect_to_ground(node, R, c["sources"][conductor])
+                                #     network.connect_to_ground(node, R, source)
                                 # else:
                                 #     network.short_to_ground(node)
 
-- 
2.43.0


From d078630000dd353b6120540442d758a3f03b8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 31/43] fix: keep every network of a level that shares its
 position with another

---
 python/src/jsonParser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 7ef9dc7..ee12b19 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -532,6 +532,9 @@ class Parser:
                                 # else:
                                 #     network.short_to_ground(node)
 
+                if bundle_level in networkd.keys():
+                    terminations.append(nw.NetworkD(networkd))
+                    networkd = {}
                 networkd[bundle_level] = network
             terminations.append(nw.NetworkD(networkd))
         return terminations
@@ -662,6 +665,9 @@ class Parser:
                     else:
                         network.connect_nodes(n0, n1, R0 + R1, Vt = add(s0,s1))
                 
+                if bundle_level in networkd.keys():
+                    junctions.append(nw.NetworkD(networkd))
+                    networkd = {}
                 networkd[bundle_level] = network
             junctions.append(nw.NetworkD(networkd))            
         return junctions
-- 
2.43.0


From ca830fa3607b68515772de0b6394cf022a633025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 32/43] fix: shields without transfer impedance

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index ee12b19..6f97701 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -290,7 +290,7 @@ class Parser:
                     line.set_resistance_in_region(coordinate, coordinate, conductor, resistance)
     
     def _setBundleTransferImpedance(self, bundle, graph):
-        for edge in graph.es:
+        for edge in [edge for edge in graph.es if edge['Zt'] != 0]:
             bundle.add_transfer_impedance(
                 out_level = graph.vs[edge.source]["level"], 
                 out_level_conductors= [self._findConductorNumberInLevel(graph, edge.source, bundle)], 
-- 
2.43.0


From ae734ee719594085e05c56e0f3c5784322594b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 33/43] fix: port probes work on the line's nodes; shunt
 conductance sees the incident transverse field

---
 python/src/mtl.py      | 18 +++++++++++-------
 python/src/networks.py |  2 +-
 python/src/probes.py   |  2 +-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index ae50bdf..31a6faf 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -422,7 +422,7 @@ class MTL():
     def advance_voltage(self):
         self.v[:, 1:-1] = np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],self.v.T[1:-1,:]).T-\
                           np.einsum('...ij,...j->...i',self.i_diff[1:-1,:,:],(self.i[:,1:]-self.i[:,:-1]).T).T-\
-                          (self.e_T_now[:, 1:-1] - self.e_T_prev[:, 1:-1])
+                          (self.e_T_now[:, 1:-1] - np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],self.e_T_prev.T[1:-1,:]).T)
       
         
     def advance_current(self):
@@ -512,17 +512,17 @@ class MTL():
 
     def add_port_probe(self, terminal):
         if terminal == 0:
-            x0 = self.z[0]
-            x1 = self.z[1]
+            x0 = self.u[0]
+            x1 = self.u[1]
             z0 = self.zs
         if terminal == 1:
-            x0 = self.z[-2]
-            x1 = self.z[-1]
+            x0 = self.u[-2]
+            x1 = self.u[-1]
             z0 = self.zl
 
         v0 = self.add_probe(position=x0,          probe_type='voltage')
         v1 = self.add_probe(position=x1,          probe_type='voltage')
-        i0 = self.add_probe(position=(x0+x1)/2.0, probe_type='current')
+        i0 = self.add_probe(position=x0,          probe_type='current')
 
         port_probe = Port(v0, v1, i0, z0)
         self.port_probes.append(port_probe)
@@ -557,6 +557,8 @@ class MTL():
             + (self.v_sources_now[:, 0] + self.v_sources_prev[:, 0])
             - (self.du_norm[0,0,0] / self.dt)
             * (self.zs.dot(self.c[0])).dot(self.e_T_now[:, 0] - self.e_T_prev[:, 0])
+            - (self.du_norm[0,0,0] / 2)
+            * (self.zs.dot(self.g[0])).dot(self.e_T_now[:, 0] + self.e_T_prev[:, 0])
         )
 
 
@@ -568,6 +570,8 @@ class MTL():
             + (self.v_sources_now[:, -1] + self.v_sources_prev[:, -1])
             - (self.du_norm[-1,0,0] / self.dt)
             * (self.zl.dot(self.c[-1])).dot(self.e_T_now[:, -1] - self.e_T_prev[:, -1])
+            - (self.du_norm[-1,0,0] / 2)
+            * (self.zl.dot(self.g[-1])).dot(self.e_T_now[:, -1] + self.e_T_prev[:, -1])
         )
 
 
@@ -848,7 +852,7 @@ class MTLD:
     def advance_voltage(self):
         self.v[:, 1:-1] = np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],self.v.T[1:-1,:]).T-\
                           np.einsum('...ij,...j->...i',self.i_diff[1:-1,:,:],(self.i[:,1:]-self.i[:,:-1]).T).T-\
-                          (self.e_T_now[:, 1:-1] - self.e_T_prev[:, 1:-1])
+                          (self.e_T_now[:, 1:-1] - np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],self.e_T_prev.T[1:-1,:]).T)
       
         
     def advance_current(self):
diff --git a/python/src/networks.py b/python/src/networks.py
index 8590f77..e0930e9 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -231,7 +231,7 @@ class Network:
             
         try:
             self.B3 = np.block([
-                [self.Is - self.Qs.dot(self.v_sources_prev)[:,np.newaxis]/dt  - 2*(self.nw_i.reshape(self.number_of_nodes,1)) - self.dx.dot(self.c).dot(self.e_T_now - self.e_T_prev)[:,np.newaxis]/dt],
+                [self.Is - self.Qs.dot(self.v_sources_prev)[:,np.newaxis]/dt  - 2*(self.nw_i.reshape(self.number_of_nodes,1)) - self.dx.dot(self.c).dot(self.e_T_now - self.e_T_prev)[:,np.newaxis]/dt - self.dx.dot(self.g).dot(self.e_T_now + self.e_T_prev)[:,np.newaxis]/2],
                 [ np.zeros([self.number_of_state_vars,1])]
             ])
         except:
diff --git a/python/src/probes.py b/python/src/probes.py
index 5a32943..8f3a916 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -67,7 +67,7 @@ class Port:
         return f, v_fft, i_fft
     
     def getTerminal(self):
-        if self.v0.position == 0.0:
+        if self.v0.index == 0:
             return "S"  
         else:
             return "L"
-- 
2.43.0


From 84fc0fe6a8ba7bd1829c45d93cb73ddcfa1b0d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 34/43] fix: connector's transfer impedance replaces the poles
 of its cell

---
 python/src/dispersive.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 92c2750..e486f5d 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -275,13 +275,11 @@ class TransferImpedance(Dispersive):
                 if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
-                    if (residues.size != 0 and poles.size != 0):
-                        self.set_poles((index, j, i), poles, -residues)
+                    self.set_poles((index, j, i), poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
-                    if (residues.size != 0 and poles.size != 0):
-                        self.set_poles((index, i, j), poles, -residues)
+                    self.set_poles((index, i, j), poles, -residues)
 
         self.set_time_step(self.dt)
-- 
2.43.0


From bf0db293c0a6abdc48b16a20e91fb64f24da631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 35/43] fix: incident fields add to other distributed sources

---
 python/src/mtl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 31a6faf..e97bd01 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -492,11 +492,11 @@ class MTL():
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi + 0.5*self.du[nz,1]).subs(z, z0 + zi + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0 + 0.5*self.du[nz,0]).subs(y, y0 + 0.5*self.du[nz,1]).subs(z, z0 + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = add(self.e_L[n, nz], sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi + 0.5*self.du[nz,1]).subs(z, z0 + zi + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0 + 0.5*self.du[nz,0]).subs(y, y0 + 0.5*self.du[nz,1]).subs(z, z0 + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz]))))
 
             for nz in nodes:
-                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_along(self.u[nz], distances[n, nz]).subs(v, np.max(vu[min(nz, len(vu)-1)])))
+                self.e_T[n,nz] = add(self.e_T[n,nz], sp.lambdify(t, field.compute_eT_along(self.u[nz], distances[n, nz]).subs(v, np.max(vu[min(nz, len(vu)-1)]))))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -812,11 +812,11 @@ class MTLD:
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi + 0.5*self.du[nz,1]).subs(z, z0 + zi + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0 + 0.5*self.du[nz,0]).subs(y, y0 + 0.5*self.du[nz,1]).subs(z, z0 + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = add(self.e_L[n, nz], sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi + 0.5*self.du[nz,1]).subs(z, z0 + zi + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0 + 0.5*self.du[nz,0]).subs(y, y0 + 0.5*self.du[nz,1]).subs(z, z0 + 0.5*self.du[nz,2]).subs(v,np.max(vu[nz]))))
 
             for nz in nodes:
-                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_along(self.u[nz], distances[n, nz]).subs(v, np.max(vu[min(nz, len(vu)-1)])))
+                self.e_T[n,nz] = add(self.e_T[n,nz], sp.lambdify(t, field.compute_eT_along(self.u[nz], distances[n, nz]).subs(v, np.max(vu[min(nz, len(vu)-1)]))))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From 347bfe6fa5d2d96800a31cce1e7acf85ad0763a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 36/43] fix: symbolic ramps are zero before their start and
 move with their argument

---
 python/src/waveforms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 9d2e284..ee25f28 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -72,22 +72,25 @@ def ramp_pulse(x, A, x0):
 
 def ramp_pulse_sp(A, x0):
     t = sp.symbols('t')
-    f1 = sp.Piecewise((A*(t/x0), (t <= x0)), (A, (t >= x0)))
+    f1 = sp.Piecewise((0, t < 0), (A*(t/x0), t <= x0), (A, True))
     return f1
 
 def ramp_pulse_x_sp(A, x0, v):
     x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
+    s = t + x/v
+    f1 = sp.Piecewise((0, s < 0), (A*(s/x0), s <= x0), (A, True))
     return f1
 
 def ramp_pulse_y_sp(A, x0, v):
     x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
+    s = t + y/v
+    f1 = sp.Piecewise((0, s < 0), (A*(s/x0), s <= x0), (A, True))
     return f1
 
 def ramp_pulse_z_sp(A, x0, v):
     x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
+    s = t + z/v
+    f1 = sp.Piecewise((0, s < 0), (A*(s/x0), s <= x0), (A, True))
     return f1
 
 
-- 
2.43.0


From f1d59ea808201f8b9a1ecd7eb91005f2b19ff24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 37/43] fix: a network of an unknown bundle stayed in the
 system that refused it

---
 python/src/mtln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 2755d2d..e8336d0 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -30,8 +30,8 @@ class MTLN:
             self.dt = bundle.dt
         
     def add_network(self, nw):
-        self.networks.append(nw)
         nw.update_index_numbers(self.bundles)
+        self.networks.append(nw)
 
     def add_networks(self, nw: list):
         for n in nw:
-- 
2.43.0


From 386bedfc66e8b8169087d0f7abdb6f4ba2b44ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 38/43] fix: keep the current of a terminating capacitor when
 the time step changes between runs

---
 python/src/networks.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index e0930e9..f963f98 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -33,6 +33,8 @@ class Network:
         self.H = np.zeros([self.number_of_nodes + self.number_of_state_vars])
 
         self.nw_v_prev = self.nw_v
+        # current of the capacitors at the end of the last step, which may have been of another length
+        self.i_C = None
 
         self.P1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
         self.Ps = np.zeros([self.number_of_nodes, self.number_of_nodes])
@@ -223,9 +225,10 @@ class Network:
 
     def advance_voltage(self, dt):
         try:
+            if (self.i_C is None):
+                self.i_C = self.Qs.dot(self.v_sources_prev[:,np.newaxis] - self.v_sources_prev2[:,np.newaxis])/dt
             self.Is = self.O.dot(self.X.reshape(self.number_of_state_vars,1)) + self.P1.dot(self.nw_v.reshape(self.number_of_nodes,1)) + self.Ps.dot(self.v_sources_prev[:,np.newaxis]) +\
-                    self.Q1.dot(self.nw_v.reshape(self.number_of_nodes,1) - self.nw_v_prev.reshape(self.number_of_nodes,1))/dt +\
-                    self.Qs.dot(self.v_sources_prev[:,np.newaxis] - self.v_sources_prev2[:,np.newaxis])/dt
+                    self.i_C
         except:
             raise Exception("block fail")        
             
@@ -242,6 +245,8 @@ class Network:
         self.nw_v = self.H[0:self.number_of_nodes]
         self.nw_v_prev.shape = self.nw_v.shape
         self.X = self.H[self.number_of_nodes:]
+        self.i_C = (self.Q1.dot(self.nw_v - self.nw_v_prev) +\
+                    self.Qs.dot(self.v_sources_now[:,np.newaxis] - self.v_sources_prev[:,np.newaxis]))/dt
 
        
     def update_line_terms(self, lines):
-- 
2.43.0


From 63bb5bf39c285db57375ced709e3471f38de7993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 39/43] fix: a bundle keeps its own record of its levels

---
 python/src/mtl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index e97bd01..7fa6fdd 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -617,7 +617,8 @@ class MTLD:
 
         self.dt = 1e10
         self.time = 0.0
-        self.levels = levels
+        # the caller may go on to use its own dictionary for another bundle
+        self.levels = {level: list(mtls) for level, mtls in levels.items()}
 
         self.number_of_conductors = 0
         self.probes : list[Probe] = []
-- 
2.43.0


From bf5bbbd429b40cb255706924cca56613b1fb45c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 40/43] fix: a NetworkD keeps its own record of its levels

---
 python/src/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index f963f98..4c3409b 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -292,7 +292,7 @@ class NetworkD:
     Networks can be joining tubes (junctions) or ending tubes (terminations)
     """
     def __init__(self, levels : Dict[int, Network]):
-        self.levels = levels
+        self.levels = dict(levels)
 
     def update_index_numbers(self, bundles):
         for level, nw in self.levels.items():
-- 
2.43.0


From c82e622c34b2071f6dfad9d9501a9deeb01f3a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 41/43] fix: the first record of a probe read before any run is
 not overwritten

---
 python/src/probes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/probes.py b/python/src/probes.py
index 8f3a916..7b7f6a2 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -40,7 +40,7 @@ class Probe:
         else:
             self.t = np.append(self.t, time)
             if self.val.shape == (0,):
-                self.val = new_values
+                self.val = np.array([new_values])
             else:
                 self.val = np.vstack((self.val, new_values))
 
-- 
2.43.0


From e95f2260a291bf2570e93a561991a9303b628a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 42/43] fix: whether a position is on a line is judged up to
 rounding, in any unit of length

---
 python/src/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/utils.py b/python/src/utils.py
index 2e04dd8..1c42f47 100644
--- a/python/src/utils.py
+++ b/python/src/utils.py
@@ -34,7 +34,8 @@ def point_in_line(point, start, end):
         v2 = start-point
         line_norm = np.linalg.norm(start-end)
         cross = np.cross(v1,v2)
-        if (np.linalg.norm(cross) < 1e-6 and np.linalg.norm(start-point) <= line_norm and np.linalg.norm(end-point) <= line_norm):
+        tolerance = 1e-6*line_norm
+        if (np.linalg.norm(cross) <= tolerance*line_norm and np.linalg.norm(start-point) <= line_norm + tolerance and np.linalg.norm(end-point) <= line_norm + tolerance):
                 return True
         return False
 
-- 
2.43.0


From ae28eb70c677bb222487360c29cbd1ecd939d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:43 +0000
Subject: [PATCH 43/43] fix: any plain number given as a position is a distance
 along the z axis

---
 python/src/mtl.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 7fa6fdd..cf61344 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -381,9 +381,9 @@ class MTL():
         self.set_resistance_in_region(position, position, conductor, resistance)
         
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        if (type(start) == float):
+        if (np.ndim(start) == 0):
             start = np.array([0.0,0.0,start])
-        if (type(end) == float):
+        if (np.ndim(end) == 0):
             end = np.array([0.0,0.0,end])
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
@@ -401,9 +401,9 @@ class MTL():
         self.add_conductance_in_region(position, position, conductor, conductance)
         
     def add_conductance_in_region(self, begin, end, conductor, conductance):
-        if (type(begin) == float):
+        if (np.ndim(begin) == 0):
             begin = np.array([0.0,0.0,begin])
-        if (type(end) == float):
+        if (np.ndim(end) == 0):
             end = np.array([0.0,0.0,end])
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - begin)))
@@ -438,7 +438,7 @@ class MTL():
         self.connectors.update_phi(i_prev, i_now)
 
     def add_voltage_source(self, position: np.ndarray, conductor: int, magnitude):
-        if (type(position) == float):
+        if (np.ndim(position) == 0):
             position = np.array([0.0,0.0,position])
 
         distances = np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position))
@@ -500,7 +500,7 @@ class MTL():
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
-        if (type(position) == float):
+        if (np.ndim(position) == 0):
             position = np.array([0.0,0.0,position])
         
         if not point_in_polyline(position, self.u):
@@ -714,9 +714,9 @@ class MTLD:
         return np.sum(lengths[:cell]) + to_start[cell]
 
     def add_localized_longitudinal_field(self, start: np.ndarray, end: np.ndarray, conductor: int, magnitude, source_type :str):
-        if (type(start) == float):
+        if (np.ndim(start) == 0):
             start = np.array([0.0,0.0,start])
-        if (type(end) == float):
+        if (np.ndim(end) == 0):
             end = np.array([0.0,0.0,end])
 
         for position in [start,end]:
@@ -742,7 +742,7 @@ class MTLD:
                 self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor))
 
     def add_probe(self, position, probe_type = str):
-        if (type(position) == float):
+        if (np.ndim(position) == 0):
             position = np.array([0.0,0.0,position])
         
         if not point_in_polyline(position, self.u):
@@ -903,9 +903,9 @@ class MTLD:
             index, transfer_impedance)
 
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        if (type(start) == float):
+        if (np.ndim(start) == 0):
             start = np.array([0.0,0.0,start])
-        if (type(end) == float):
+        if (np.ndim(end) == 0):
             end = np.array([0.0,0.0,end])
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
@@ -920,9 +920,9 @@ class MTLD:
         self.update_lr_terms()
 
     def add_conductance_in_region(self, start, end, conductor, conductance):
-        if (type(start) == float):
+        if (np.ndim(start) == 0):
             start = np.array([0.0,0.0,start])
-        if (type(end) == float):
+        if (np.ndim(end) == 0):
             end = np.array([0.0,0.0,end])
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
-- 
2.43.0

