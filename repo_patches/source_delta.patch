From 1ae1a6c5643a998040253000d7c99735ce2ab781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 01/33] fix: RAMP stiffness derivative has the wrong sign on
 the p*rho term

---
 scikit-topt/sktopt/core/derivatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/derivatives.py b/scikit-topt/sktopt/core/derivatives.py
index bcea868..3a33365 100644
--- a/scikit-topt/sktopt/core/derivatives.py
+++ b/scikit-topt/sktopt/core/derivatives.py
@@ -59,7 +59,7 @@ def dE_drho_ramp(rho, E0, Emin, p):
     E(rho) = Emin + (E0 - Emin) * rho / (1 + p * (1 - rho))
     """
     denom = 1.0 + p * (1.0 - rho)
-    return (E0 - Emin) * (denom - p * rho) / (denom ** 2)
+    return (E0 - Emin) * (denom + p * rho) / (denom ** 2)
 
 
 def dC_drho_ramp(rho, strain_energy, E0, Emin, p):
@@ -75,7 +75,7 @@ def dE_drho_ramp_inplace(rho, out, E0, Emin, p):
     """
     np.copyto(out, rho)
     denom = 1.0 + p * (1.0 - rho)
-    np.copyto(out, (E0 - Emin) * (denom - p * rho) / (denom ** 2))
+    np.copyto(out, (E0 - Emin) * (denom + p * rho) / (denom ** 2))
 
 
 def dC_drho_ramp_inplace(rho, strain_energy, out, E0, Emin, p):
-- 
2.43.0


From 1ad7cb297171b1b59b62f2e481eeaf1363a687ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 02/33] fix: rebuild the scheduler settings when importing an
 exported config

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index a3377d8..1a694f8 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1,7 +1,7 @@
 import os
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, field
-from dataclasses import asdict
+from dataclasses import asdict, fields
 from typing import Literal
 import inspect
 import shutil
@@ -317,6 +317,11 @@ class DensityMethodConfig():
             data = json.load(f)
         # Drop legacy keys that may linger in old configs.
         data.pop("record_timing", None)
+        # Schedules are nested dataclasses and come back from JSON as dicts.
+        scheduler_keys = {f.name for f in fields(tools.SchedulerConfig)}
+        for key, value in data.items():
+            if isinstance(value, dict) and set(value) == scheduler_keys:
+                data[key] = tools.SchedulerConfig(**value)
         return cls(**data)
 
     def export(self, path: str):
-- 
2.43.0


From b10f5eb971cb10ac2f31ad4e543cb17fd11b1721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 03/33] fix: division by zero when record_times exceeds
 max_iters

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 1a694f8..df3796a 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1190,7 +1190,7 @@ class DensityMethod(DensityMethodBase):
 
             if any(
                 (
-                    iter_num % (cfg.max_iters // cfg.record_times) == 0,
+                    iter_num % max(cfg.max_iters // cfg.record_times, 1) == 0,
                     iter_num == 1,
                     (conv_rho and conv_kkt),
                     (iter_num == iter_limit - 1)
-- 
2.43.0


From 57e133399816a4f87f345be3215ed79d89c13703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 04/33] fix: a non-finite KKT residual is not a converged one

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index df3796a..dc78a2b 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1176,7 +1176,7 @@ class DensityMethod(DensityMethodBase):
                             kkt_residual
                         ) < cfg.tol_kkt_residual
                     else:
-                        conv_kkt = True
+                        conv_kkt = False
                     state.vol_error = vol_error
 
                     if conv_rho and conv_kkt:
-- 
2.43.0


From 18b0a39e80b2ca6fef55b6faf3d9f6288756f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 05/33] fix: LogMOC restart reads running_scale before it is
 set

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index d003283..191d03a 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -81,6 +81,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         self.recorder.add("dV_chain", plot_type="min-max-mean-std", ylog=True)
         self.recorder.add("volume_chain_scale", ylog=True)
         self.lambda_v = cfg.lambda_v
+        self.running_scale = 0
         self._dL_buffer = None
         self._dV_chain_design = None
         self._dV_projected_full = None
-- 
2.43.0


From dca60d56e6a01cb060c92376d6eb980d1a89d2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 06/33] fix: tasks without Neumann boundary had every element
 reset to solid

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index dc78a2b..1007897 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -743,7 +743,8 @@ class DensityMethod(DensityMethodBase):
             iter_end = cfg.max_iters + 1
 
         if cfg.design_dirichlet is True:
-            rho[tsk.neumann_elements] = 1.0
+            if tsk.neumann_elements is not None:
+                rho[tsk.neumann_elements] = 1.0
         else:
             rho[tsk.dirichlet_neumann_elements] = 1.0
         rho[tsk.fixed_elements] = 1.0
@@ -1134,7 +1135,8 @@ class DensityMethod(DensityMethodBase):
                 )
             rho[tsk.design_elements] = rho_design_eles
             if cfg.design_dirichlet is True:
-                rho[tsk.neumann_elements] = 1.0
+                if tsk.neumann_elements is not None:
+                    rho[tsk.neumann_elements] = 1.0
             else:
                 rho[tsk.dirichlet_neumann_elements] = 1.0
 
-- 
2.43.0


From 1b5066b1899bddcd1daa7df4d9456c8ca0dcc4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 07/33] fix: condition.vtu colored every node when a boundary
 type was absent

---
 scikit-topt/sktopt/mesh/task_common.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 8b1c8c3..7cdab1a 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -372,9 +372,13 @@ class FEMDomain():
         # Points (shape: [n_nodes, dim])
         points = mesh.p.T
         node_colors_df = np.zeros(mesh.p.shape[1], dtype=int)
-        node_colors_df[self.neumann_nodes_all] = 1
-        node_colors_df[self.dirichlet_nodes] = 2
-        node_colors_df[self.robin_nodes] = 3
+        for color, nodes in (
+            (1, self.neumann_nodes), (2, self.dirichlet_nodes), (3, self.robin_nodes)
+        ):
+            if nodes is None:
+                continue
+            for region in nodes if isinstance(nodes, list) else [nodes]:
+                node_colors_df[region] = color
         point_outputs = dict()
         point_outputs["node_color"] = node_colors_df
 
-- 
2.43.0


From 180cd6094beb02d7363e067112785c2f7ff51fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 08/33] fix: element lookup returned entries of a collected
 mesh with the same id

---
 scikit-topt/sktopt/mesh/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index ee1067f..996a64f 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -1,3 +1,4 @@
+import weakref
 from collections import defaultdict
 import numpy as np
 from scipy.sparse import csr_matrix
@@ -202,17 +203,22 @@ def get_elements_by_nodes(
     if not hasattr(get_elements_by_nodes, "_cache"):
         get_elements_by_nodes._cache = {}
 
+    # id() is reused once a mesh is collected: an entry only counts
+    # while the mesh it was built from is alive.
     mesh_id = id(mesh)
-    if mesh_id not in get_elements_by_nodes._cache:
+    cached = get_elements_by_nodes._cache.get(mesh_id)
+    if cached is None or cached[0]() is not mesh:
         # Build: node index → set of element indices
         node_to_elements = defaultdict(set)
         # mesh.t.T: shape = (n_elements, nodes_per_element)
         for e, nodes in enumerate(mesh.t.T):
             for n in nodes:
                 node_to_elements[n].add(e)
-        get_elements_by_nodes._cache[mesh_id] = node_to_elements
+        get_elements_by_nodes._cache[mesh_id] = (
+            weakref.ref(mesh), node_to_elements
+        )
 
-    node_to_elements = get_elements_by_nodes._cache[mesh_id]
+    node_to_elements = get_elements_by_nodes._cache[mesh_id][1]
 
     # Normalize target_nodes
     if isinstance(target_nodes, np.ndarray):
-- 
2.43.0


From 793d0fe05d43a5b64e0fb36c7a06c3189b23840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 09/33] fix: tasks with several Dirichlet regions of different
 sizes could not be built

---
 scikit-topt/sktopt/mesh/task_common.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 7cdab1a..571bd2c 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -164,7 +164,7 @@ class FEMDomain():
                 raise ValueError("dirichlet_nodes is not np.ndarray or of list")
 
             dirichlet_elements = utils.get_elements_by_nodes(
-                basis.mesh, [dirichlet_nodes]
+                basis.mesh, dirichlet_nodes
             )
         else:
             dirichlet_dofs = None
@@ -231,7 +231,13 @@ class FEMDomain():
         dirichlet_neumann_elements = np.concatenate(valid) \
             if len(valid) > 0 else np.array([], dtype=int)
 
-        free_dofs = setdiff1d(np.arange(basis.N), dirichlet_dofs)
+        if dirichlet_dofs is None:
+            constrained_dofs = np.array([], dtype=int)
+        elif isinstance(dirichlet_dofs, list):
+            constrained_dofs = np.concatenate(dirichlet_dofs)
+        else:
+            constrained_dofs = dirichlet_dofs
+        free_dofs = setdiff1d(np.arange(basis.N), constrained_dofs)
         free_elements = utils.get_elements_by_nodes(
             basis.mesh, [free_dofs]
         )
-- 
2.43.0


From 54f1bff8e3a7ee7d94f6b18add8cb057be26f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 10/33] fix: free_elements looked up degrees of freedom as if
 they were nodes

---
 scikit-topt/sktopt/mesh/task_common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 571bd2c..03b8c95 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -238,8 +238,11 @@ class FEMDomain():
         else:
             constrained_dofs = dirichlet_dofs
         free_dofs = setdiff1d(np.arange(basis.N), constrained_dofs)
+        free_nodes = np.where(
+            np.isin(basis.nodal_dofs, free_dofs).any(axis=0)
+        )[0]
         free_elements = utils.get_elements_by_nodes(
-            basis.mesh, [free_dofs]
+            basis.mesh, [free_nodes]
         )
         elements_volume = composer.get_elements_volume(basis.mesh)
         print(
-- 
2.43.0


From c71ac62c0c58fe0b1fb7fef88a498cc831374ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 11/33] fix: numbered dirichlet_N mesh tags were ignored for
 elasticity

---
 scikit-topt/sktopt/mesh/task_elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 52f4ac4..88892c6 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -281,7 +281,7 @@ class LinearElasticity(FEMDomain):
         design_elements = basis.mesh.subdomains["design"]
         keys = basis.mesh.boundaries.keys()
         dirichlet_keys = sorted(
-            [k for k in keys if re.match(r"dirichlete_\d+$", k)],
+            [k for k in keys if re.match(r"dirichlet_\d+$", k)],
             key=lambda x: int(re.search(r"\d+$", x).group())
         )
         if dirichlet_keys:
-- 
2.43.0


From 41a21ef7c9672c7ce1ae0e5a1460517b117a9579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 12/33] fix: meshes loaded from file were never oriented

---
 scikit-topt/sktopt/mesh/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/loader.py b/scikit-topt/sktopt/mesh/loader.py
index f8ebe7e..2696015 100644
--- a/scikit-topt/sktopt/mesh/loader.py
+++ b/scikit-topt/sktopt/mesh/loader.py
@@ -23,7 +23,7 @@ def basis_from_file(
     else:
         raise ValueError(f"Unsupported cell types: {cell_types}")
 
-    if hasattr(mesh_skfem, "mesh_skfem"):
+    if hasattr(mesh_skfem, "oriented"):
         mesh_skfem = mesh_skfem.oriented()
 
     basis = skfem.Basis(
-- 
2.43.0


From 8e9514784a392174f90e40d3bce42f5cff79858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 13/33] fix: assigning a single force vector made every dof a
 load case

---
 scikit-topt/sktopt/mesh/task_elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 88892c6..9355222 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -121,7 +121,7 @@ class LinearElasticity(FEMDomain):
 
     @force.setter
     def force(self, value):
-        self.neumann_linear = value
+        self.neumann_linear = value if isinstance(value, list) else [value]
 
     @property
     def force_elements(self):
-- 
2.43.0


From 71569d72289ebd1823ef99cdade94da44c5a31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 14/33] fix: force_nodes returned elements and
 force_elements_all did not exist

---
 scikit-topt/sktopt/mesh/task_elastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 9355222..242bca6 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -133,7 +133,7 @@ class LinearElasticity(FEMDomain):
 
     @property
     def force_nodes(self):
-        return self.neumann_elements
+        return self.neumann_nodes
 
     @force_nodes.setter
     def force_nodes(self, value):
@@ -260,7 +260,7 @@ class LinearElasticity(FEMDomain):
 
     @property
     def force_elements_all(self) -> np.ndarray:
-        return self.neumann_elements_all
+        return self.neumann_elements
 
     @classmethod
     def from_mesh_tags(
-- 
2.43.0


From df425295d36b022aba24643e88387bbece709fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 15/33] fix: multi-load wrappers forwarded n_joblib to
 functions without it

---
 scikit-topt/sktopt/fea/solver.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver.py b/scikit-topt/sktopt/fea/solver.py
index a3937e8..5ab2d6e 100644
--- a/scikit-topt/sktopt/fea/solver.py
+++ b/scikit-topt/sktopt/fea/solver.py
@@ -165,7 +165,6 @@ def solve_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
@@ -201,7 +200,6 @@ def compute_compliance_basis_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
-- 
2.43.0


From eee1771b7f50ec17b376cde21133baf337f7db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 16/33] fix: elasticity tasks with several Dirichlet regions
 could not be solved

---
 scikit-topt/sktopt/mesh/task_elastic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 242bca6..720a524 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -221,6 +221,11 @@ class LinearElasticity(FEMDomain):
             design_elements
         )
 
+        dirichlet_dofs = base.dirichlet_dofs
+        if isinstance(dirichlet_dofs, list):
+            # every load case is held at all of the regions
+            dirichlet_dofs = np.unique(np.concatenate(dirichlet_dofs))
+
         neumann_linear = assemble_surface_forces(
             base.basis,
             force_facets_ids=force_facets_ids,
@@ -235,7 +240,7 @@ class LinearElasticity(FEMDomain):
         return cls(
             base.basis,
             base.dirichlet_nodes,
-            base.dirichlet_dofs,
+            dirichlet_dofs,
             base.dirichlet_elements,
             base.dirichlet_values,
             base.neumann_nodes,
-- 
2.43.0


From c4b97372165274f2f1145ac696fd9415ed9c573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 17/33] fix: nodal averages mixed up the densities of unrelated
 elements

---
 scikit-topt/sktopt/fea/solver_heat.py | 4 ++--
 scikit-topt/sktopt/mesh/task_heat.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 037a157..6708892 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -607,7 +607,7 @@ def _element_to_nodal_average(
 
     rho_nodal = np.zeros(nvert, dtype=float)
     count = np.zeros(nvert, dtype=float)
-    np.add.at(rho_nodal, t.ravel(), np.repeat(rho, nloc))
+    np.add.at(rho_nodal, t.ravel(), np.tile(rho, nloc))
     np.add.at(count, t.ravel(), 1.0)
     rho_nodal /= np.maximum(count, 1.0)
     return rho_nodal, count
@@ -732,7 +732,7 @@ class FEM_SimpLinearHeatConduction():
 
             rho_nodal = np.zeros(nvert, dtype=float)
             count = np.zeros(nvert, dtype=float)
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, k))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, k))
             np.add.at(count,     t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1.0)
 
diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index bad0ae5..19ed3fb 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -90,7 +90,7 @@ def assemble_surface_robin(
             rho_nodal = np.zeros(basis.mesh.nvertices)
             count = np.zeros(basis.mesh.nvertices)
             t = basis.mesh.t
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, t.shape[0]))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, t.shape[0]))
             np.add.at(count, t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1)
         else:
-- 
2.43.0


From 88962bf070a73513779022d55fe1e6322d430b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 18/33] fix: heat sensitivity used the SIMP derivative with
 RAMP conductivity

---
 scikit-topt/sktopt/fea/solver_heat.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 6708892..9531daf 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -939,10 +939,14 @@ class FEM_SimpLinearHeatConduction():
         n_elem, n_loads = energy.shape
         grad_all = np.zeros((n_elem, n_loads), dtype=float)
 
+        from sktopt.core import derivatives
+        dC_drho_func = (
+            derivatives.dC_drho_ramp
+            if self.density_interpolation is composer.ramp_interpolation
+            else derivatives.dC_drho_simp
+        )
         for i in range(n_loads):
-            from sktopt.core import derivatives
-
-            grad_all[:, i] = derivatives.dC_drho_simp(
+            grad_all[:, i] = dC_drho_func(
                 rho, energy[:, i], self.k_max, self.k_min, p
             )
 
-- 
2.43.0


From 04dd18ccecb3af0bb9005e53a0319e07d9236dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 19/33] fix: OC update turned positive sensitivities into NaN
 densities

---
 scikit-topt/sktopt/core/optimizers/oc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 7ffc448..9f0ce85 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -49,6 +49,8 @@ def bisection_with_physical_volume(
     vol_error = 0.0
     while True:
         np.negative(dC, out=scaling_rate)
+        # an increasing objective has no real power: go as low as allowed
+        np.maximum(scaling_rate, 0.0, out=scaling_rate)
         scaling_rate /= (lmid + eps)
         np.power(scaling_rate, eta, out=scaling_rate)
         np.clip(
-- 
2.43.0


From 09ec260fce225510308121d0723ab04b34ad2ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 20/33] fix: hexahedron volumes counted one tetrahedron twice

---
 scikit-topt/sktopt/fea/composer.py | 66 ++++++++++++++----------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index 547a805..d9b5621 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -210,37 +210,34 @@ def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
     for e in prange(n_elements):
         n = t_conn[:, e]
 
-        #   7--------6
-        #  /|       /|
-        # 4--------5 |
-        # | |      | |
-        # | 3------|-2
-        # |/       |/
-        # 0--------1
+        # scikit-fem numbers the corners of the unit cube
+        # 0:(0,0,0) 1:(0,0,1) 2:(0,1,0) 3:(1,0,0)
+        # 4:(0,1,1) 5:(1,0,1) 6:(1,1,0) 7:(1,1,1);
+        # the tetrahedra all share the diagonal 0-7.
         vol = 0.0
         vol += _tet_volume_numba(
             p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
+            p_coords[:, n[0]], p_coords[:, n[1]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
 
         elements_volume[e] = vol
@@ -272,38 +269,35 @@ def _get_elements_volume_hex_numba(t_conn, p_coords) -> np.ndarray:
         n = t_conn[:, e]
 
         # Tetra 6 division
-        #   7--------6
-        #  /|       /|
-        # 4--------5 |
-        # | |      | |
-        # | 3------|-2
-        # |/       |/
-        # 0--------1
+        # scikit-fem numbers the corners of the unit cube
+        # 0:(0,0,0) 1:(0,0,1) 2:(0,1,0) 3:(1,0,0)
+        # 4:(0,1,1) 5:(1,0,1) 6:(1,1,0) 7:(1,1,1);
+        # the tetrahedra all share the diagonal 0-7.
 
         vol = 0.0
         vol += _tet_volume_numba(
             p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
+            p_coords[:, n[0]], p_coords[:, n[1]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
 
         elements_volume[e] = vol
-- 
2.43.0


From 49b51eed786ab3957aff521d1c4984973d6423c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 21/33] fix: heat load cases with different Dirichlet dofs were
 solved with the first one

---
 scikit-topt/sktopt/fea/solver_heat.py | 48 +++++++++++++++++----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 9531daf..1526319 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -174,24 +174,38 @@ def solve_heat_system_multi(
         for D_i, val_i in zip(dirichlet_dofs_list, dirichlet_values_list)
     ])
 
-    if solver_name in {"petsc", "petsc_spdirect"}:
-        petsc_options = petsc_options_for_solver(
-            solver_name,
-            solver_config.petsc_options,
-        )
-        u_sol, infos = solve_u_petsc_multi(
-            K_e,
-            F_stack,
-            rtol=solver_config.rtol,
-            maxiter=solver_config.maxiter,
-            petsc_options=petsc_options,
-        )
-        logger.info(f"PETSc heat multi-load solver info: {infos}")
+    def solve_enforced(K_enforced, F_columns):
+        if solver_name in {"petsc", "petsc_spdirect"}:
+            petsc_options = petsc_options_for_solver(
+                solver_name,
+                solver_config.petsc_options,
+            )
+            u_sol, infos = solve_u_petsc_multi(
+                K_enforced,
+                F_columns,
+                rtol=solver_config.rtol,
+                maxiter=solver_config.maxiter,
+                petsc_options=petsc_options,
+            )
+            logger.info(f"PETSc heat multi-load solver info: {infos}")
+            return u_sol
+        lu = scipy.sparse.linalg.splu(K_enforced.tocsc())
+        return lu.solve(F_columns)
+
+    shared = all(
+        np.array_equal(D_i.flatten(), D0.flatten())
+        for D_i in dirichlet_dofs_list[1:n_loads]
+    )
+    if shared:
+        u_all[:, :] = solve_enforced(K_e, F_stack)
     else:
-        lu = scipy.sparse.linalg.splu(K_e.tocsc())
-        u_sol = lu.solve(F_stack)
-
-    u_all[:, :] = u_sol
+        # each load case holds its own dofs, so it has its own matrix
+        for i in range(n_loads):
+            D_i, val_i = dirichlet_dofs_list[i], dirichlet_values_list[i]
+            K_i, _ = skfem.enforce(
+                K_csr, emit, D=D_i, x=np.full(D_i.N, val_i)
+            )
+            u_all[:, i] = solve_enforced(K_i, F_stack[:, [i]])[:, 0]
     return K_e.tocsr()
 
 
-- 
2.43.0


From 026b702d025871fe4c691867d8ddb8850b951f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 22/33] fix: heat adjoint fields took the prescribed
 temperatures as boundary values

---
 scikit-topt/sktopt/fea/solver_heat.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 1526319..eba8957 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -778,6 +778,8 @@ class FEM_SimpLinearHeatConduction():
         )
 
         n_loads = u_dofs.shape[1]
+        # prescribed temperatures do not vary, so adjoints vanish there
+        adjoint_values_list = [0.0] * n_loads
         J_list: list[float] = []
         λ_all: np.ndarray | None = None
 
@@ -851,7 +853,7 @@ class FEM_SimpLinearHeatConduction():
                 K_csr,
                 rhs_vec,
                 dirichlet_dofs_list,
-                dirichlet_values_list,
+                adjoint_values_list,
                 λ_all,
                 self.solver_config,
             )
@@ -865,7 +867,7 @@ class FEM_SimpLinearHeatConduction():
                     K_csr,
                     ones_emit,
                     dirichlet_dofs_list,
-                    dirichlet_values_list,
+                    adjoint_values_list,
                     λ_avg,
                     self.solver_config,
                 )
@@ -897,7 +899,7 @@ class FEM_SimpLinearHeatConduction():
                 K_csr,
                 ones_emit,
                 dirichlet_dofs_list,
-                dirichlet_values_list,
+                adjoint_values_list,
                 λ_all,
                 self.solver_config,
             )
-- 
2.43.0


From 8563fce7d2d497b387e68bf2c5e5a87039eeaab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 23/33] fix: unconverged iterative solves were returned without
 fallback or warning

---
 scikit-topt/sktopt/fea/solver_elastic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_elastic.py b/scikit-topt/sktopt/fea/solver_elastic.py
index 99f35f2..6e5ece4 100644
--- a/scikit-topt/sktopt/fea/solver_elastic.py
+++ b/scikit-topt/sktopt/fea/solver_elastic.py
@@ -134,6 +134,12 @@ def solve_u(
         else:
             raise ValueError(f"Unknown solver: {chosen_solver}")
 
+        # CG reports 0 on success, PETSc a positive reason
+        if info < 0 or (info > 0 and not chosen_solver.startswith('petsc')):
+            if allow_fallback_to_spsolve:
+                raise RuntimeError(f"{chosen_solver} did not converge: {info}")
+            logger.warning(f"{chosen_solver} did not converge: {info}")
+
     except Exception as e:
         if not allow_fallback_to_spsolve:
             raise
-- 
2.43.0


From 53f3465fbf9365f6ffa897cc2f9600b8cb0b96f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 24/33] fix: heat tasks with a single unlisted Dirichlet region
 could not be built

---
 scikit-topt/sktopt/mesh/task_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 03b8c95..de769b4 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -131,7 +131,7 @@ class FEMDomain():
                     assert isinstance(dirichlet_dir, list)
                     assert len(dirichlet_nodes) == len(dirichlet_dir)
             elif isinstance(dirichlet_nodes, np.ndarray):
-                assert isinstance(dirichlet_dir, str)
+                assert dirichlet_dir is None or isinstance(dirichlet_dir, str)
                 # assert dirichlet_dir in _lit_bc
             else:
                 raise ValueError("dirichlet_nodes should be list or np.ndarray")
@@ -158,7 +158,7 @@ class FEMDomain():
                 # dirichlet_nodes = np.concatenate(dirichlet_nodes)
             elif isinstance(dirichlet_nodes, np.ndarray):
                 dofs = basis.get_dofs(nodes=dirichlet_nodes)
-                dirichlet_dofs = dofs.all() if dirichlet_dir == 'all' \
+                dirichlet_dofs = dofs.all() if dirichlet_dir in (None, 'all') \
                     else dofs.nodal[dirichlet_dir]
             else:
                 raise ValueError("dirichlet_nodes is not np.ndarray or of list")
-- 
2.43.0


From 92a4b54c9df7117b9ba41c3aaa6f50337eb6f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 25/33] fix: single-load solves ignored
 allow_fallback_to_spsolve

---
 scikit-topt/sktopt/fea/solver_elastic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/fea/solver_elastic.py b/scikit-topt/sktopt/fea/solver_elastic.py
index 6e5ece4..b71acc8 100644
--- a/scikit-topt/sktopt/fea/solver_elastic.py
+++ b/scikit-topt/sktopt/fea/solver_elastic.py
@@ -224,7 +224,10 @@ def compute_compliance_basis(
                 rtol=solver_cfg.rtol,
                 maxiter=_maxiter,
                 petsc_options=solver_cfg.petsc_options,
-                allow_fallback_to_spsolve=(solver_cfg.solver == 'auto'),
+                allow_fallback_to_spsolve=(
+                    solver_cfg.solver == 'auto'
+                    or solver_cfg.allow_fallback_to_spsolve
+                ),
             ),
         )
 
-- 
2.43.0


From ef9240eed39ed02875cd72f2de6ca35f7acd8332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 26/33] fix: exclude_dirichlet left Dirichlet elements out of
 fixed_elements

---
 scikit-topt/sktopt/mesh/task_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index de769b4..1c6bf18 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -412,6 +412,9 @@ class FEMDomain():
         self.design_elements = setdiff1d(
             self.design_elements, self.dirichlet_elements
         )
+        self.fixed_elements = setdiff1d(
+            self.all_elements, self.design_elements
+        )
 
     def scale(
         self,
-- 
2.43.0


From 1d1173ea55763e345a331f13fc52e174c91ea057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 27/33] fix: orienting a mirrored hexahedron tangled it

---
 scikit-topt/sktopt/mesh/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 996a64f..6e5c546 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -49,8 +49,10 @@ def fix_hexahedron_orientation(t, p):
         jac_det = np.dot(np.cross(v1, v2), v3)
 
         if jac_det < 0:
-            # Swap two nodes to flip orientation (commonly swap node 1 and 3)
+            # Mirror the element: node 1 and 3 trade places, and so do the
+            # nodes opposite to them on the adjacent faces (4 and 6)
             t_fixed[1, e], t_fixed[3, e] = t_fixed[3, e], t_fixed[1, e]
+            t_fixed[4, e], t_fixed[6, e] = t_fixed[6, e], t_fixed[4, e]
 
     return t_fixed
 
-- 
2.43.0


From b7f8da99f9643938febf1751a076b43585543efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:06 +0000
Subject: [PATCH 28/33] fix: keep quadrature and named regions when a task is
 rescaled

scale() built the new basis from the element alone, so the quadrature
given with the task and the mesh's boundaries and subdomains were lost.
---
 scikit-topt/sktopt/mesh/task_common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 1c6bf18..5ec54cc 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -424,9 +424,10 @@ class FEMDomain():
         # this wont work
         # self.basis.mesh.p /= L_scale
         mesh = self.basis.mesh
-        p_scaled = mesh.p * L_scale
-        mesh_scaled = type(mesh)(p_scaled, mesh.t)
-        basis_scaled = skfem.Basis(mesh_scaled, self.basis.elem)
+        mesh_scaled = mesh.scaled([L_scale] * mesh.p.shape[0])
+        basis_scaled = skfem.Basis(
+            mesh_scaled, self.basis.elem, quadrature=self.basis.quadrature
+        )
         self.basis = basis_scaled
 
         if isinstance(self.force, np.ndarray):
-- 
2.43.0


From 7a4474a4d4fda6272586ac707565873e34b6035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:04 +0000
Subject: [PATCH 29/33] fix: write hexahedra in the corner order of the file
 format

The exported meshes listed scikit-fem's corner numbering under the label
"hexahedron", whose numbering is different: the cells came out tangled.
---
 scikit-topt/sktopt/core/visualization.py | 6 +++++-
 scikit-topt/sktopt/mesh/task_common.py   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index e9bdee3..2cc2ac0 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -6,6 +6,7 @@ from typing import Optional
 import numpy as np
 import imageio.v2 as imageio
 import skfem
+from skfem.io.meshio import HEX_MAPPING
 import meshio
 import matplotlib.pyplot as plt
 
@@ -51,10 +52,13 @@ def export_mesh_with_info(
         Output filename (e.g., "result.vtu").
     """
     # Determine element type
+    connectivity = mesh.t
     if isinstance(mesh, skfem.MeshTet):
         cell_type = "tetra"
     elif isinstance(mesh, skfem.MeshHex):
         cell_type = "hexahedron"
+        # the file format numbers the corners differently from skfem
+        connectivity = connectivity[HEX_MAPPING[:8]]
     else:
         raise ValueError(f"Unsupported mesh type: {type(mesh)}")
 
@@ -77,7 +81,7 @@ def export_mesh_with_info(
     # Build and write meshio.Mesh
     meshio_mesh = meshio.Mesh(
         points=points,
-        cells=[meshio.CellBlock(cell_type, mesh.t.T)],
+        cells=[meshio.CellBlock(cell_type, connectivity.T)],
         point_data=point_data,
         cell_data=cell_data
     )
diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 5ec54cc..be531e9 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -370,11 +370,15 @@ class FEMDomain():
         self, dst_path: str
     ):
         import meshio
+        from skfem.io.meshio import HEX_MAPPING
         mesh = self.basis.mesh
+        connectivity = mesh.t
         if isinstance(mesh, skfem.MeshTet):
             cell_type = "tetra"
         elif isinstance(mesh, skfem.MeshHex):
             cell_type = "hexahedron"
+            # the file format numbers the corners differently from skfem
+            connectivity = connectivity[HEX_MAPPING[:8]]
         else:
             raise ValueError("Unsupported mesh type for VTU export.")
 
@@ -396,7 +400,7 @@ class FEMDomain():
         element_colors_df[self.free_elements] = 1
         element_colors_df[self.fixed_elements] = 2
         element_colors_df[self.design_elements] = 3
-        cells = [(cell_type, mesh.t.T)]
+        cells = [(cell_type, connectivity.T)]
         cell_outputs = dict()
         cell_outputs["condition"] = [element_colors_df]
 
-- 
2.43.0


From abd01a75df851c760550f85b64f473f2e0dd34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:04 +0000
Subject: [PATCH 30/33] fix: give every section its own bar and running average

Nested sections with the same last name under different parents shared one
bar (and one running average) in SectionTimer.plot_bar.
---
 scikit-topt/sktopt/tools/timer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/tools/timer.py b/scikit-topt/sktopt/tools/timer.py
index 261178e..f765567 100644
--- a/scikit-topt/sktopt/tools/timer.py
+++ b/scikit-topt/sktopt/tools/timer.py
@@ -364,10 +364,11 @@ class SectionTimer:
             return (fig or ax.figure), ax
 
         names = [s.name for s in stats]
+        labels = names
         fmt_nested = self._hierarchical if format_nested is None else format_nested
         if fmt_nested:
             indent = "  "
-            names = [
+            labels = [
                 f"{indent * name.count(self._sep)}{name.split(self._sep)[-1]}"
                 for name in names
             ]
@@ -383,7 +384,11 @@ class SectionTimer:
             fig = Figure(figsize=(6, 0.4 * len(stats) + 1))
             ax = fig.add_subplot(111)
 
-        ax.barh(names, data, color=color)
+        # labels may repeat under different parents: one slot per section
+        positions = list(range(len(labels)))
+        ax.barh(positions, data, color=color)
+        ax.set_yticks(positions)
+        ax.set_yticklabels(labels)
         ax.set_xlabel(f"{value} [s]" if value in ("total", "avg", "max") else value)
         ax.set_title("Section timing")
         ax.invert_yaxis()
-- 
2.43.0


From 160185742e81906b81adb6f5bc57b0dcd04deac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:45 +0000
Subject: [PATCH 31/33] fix: give the command line's schedule options default
 step counts

Without options the command line built a configuration whose schedules
had no num_steps and were refused.
---
 scikit-topt/sktopt/core/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index f7ad45d..2cc4fce 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -82,7 +82,7 @@ def add_common_arguments(
         '--vol_frac', '-V', type=float, default=0.4, help=''
     )
     parser.add_argument(
-        '--vol_frac_step', '-VFT', type=float_or_none, default=None, help=''
+        '--vol_frac_step', '-VFT', type=float_or_none, default=3, help=''
     )
     parser.add_argument(
         '--p_init', '-PI', type=float, default=1.0, help=''
@@ -91,7 +91,7 @@ def add_common_arguments(
         '--p', '-P', type=float, default=3.0, help=''
     )
     parser.add_argument(
-        '--p_step', '-PRT', type=float_or_none, default=None, help=''
+        '--p_step', '-PRT', type=float_or_none, default=3, help=''
     )
     parser.add_argument(
         '--beta_init', '-BI', type=float, default=0.1, help=''
@@ -103,7 +103,7 @@ def add_common_arguments(
         '--beta_curvature', '-BC', type=float, default=5.0, help=''
     )
     parser.add_argument(
-        '--beta_step', '-BR', type=float_or_none, default=None, help=''
+        '--beta_step', '-BR', type=float_or_none, default=3, help=''
     )
     parser.add_argument(
         '--percentile_init', '-PTI', type=float_or_none, default=None, help=''
-- 
2.43.0


From 570b7032725eb459f6c56f174e40e3f32e6b6fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:12 +0000
Subject: [PATCH 32/33] fix: assemble the loaded mesh's stiffness with Lame
 parameters

linear_elasticity takes (lambda, mu); load_stiffness_matrix handed it
Young's modulus and Poisson's ratio.
---
 scikit-topt/sktopt/mesh/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/loader.py b/scikit-topt/sktopt/mesh/loader.py
index 2696015..6314da3 100644
--- a/scikit-topt/sktopt/mesh/loader.py
+++ b/scikit-topt/sktopt/mesh/loader.py
@@ -3,7 +3,7 @@ import numpy as np
 
 import meshio
 import skfem
-from skfem.models.elasticity import linear_elasticity
+from skfem.models.elasticity import lame_parameters, linear_elasticity
 
 
 def basis_from_file(
@@ -39,7 +39,9 @@ def load_stiffness_matrix(
     nu: float = 0.3
 ) -> np.ndarray:
     basis = basis_from_file(mesh_path)
-    stiffness_mat = skfem.asm(linear_elasticity(E, nu), basis)
+    stiffness_mat = skfem.asm(
+        linear_elasticity(*lame_parameters(E, nu)), basis
+    )
     return stiffness_mat
 
 
-- 
2.43.0


From 6c2c55c63883ce39726d7deb94f34bb0b5db1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:12 +0000
Subject: [PATCH 33/33] fix: load regions of toy_msh pull and pull_2 are ranges

A trailing comma made them one-element tuples, so neither problem could
be built.
---
 scikit-topt/sktopt/mesh/toy_problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/toy_problem.py b/scikit-topt/sktopt/mesh/toy_problem.py
index 30482a8..d7c76d5 100644
--- a/scikit-topt/sktopt/mesh/toy_problem.py
+++ b/scikit-topt/sktopt/mesh/toy_problem.py
@@ -221,14 +221,14 @@ def toy_msh(
         force_value = -800
 
     elif task_elastic_name == "pull":
-        x_range = (x_len-eps, x_len+0.05),
+        x_range = (x_len-eps, x_len+0.05)
         y_range = (y_len*2/5, y_len*3/5)
         z_range = (z_len*2/5, z_len*3/5)
         force_dir_type = "u^1"
         force_value = 1200.0
     elif task_elastic_name == "pull_2":
-        x_range = (x_len-eps, x_len+0.05),
-        y_range = (y_len/2.0-eps, y_len/2+eps),
+        x_range = (x_len-eps, x_len+0.05)
+        y_range = (y_len/2.0-eps, y_len/2+eps)
         z_range = (z_len*2/5, z_len*3/5)
         force_dir_type = "u^1"
         force_value = 200.0
-- 
2.43.0

