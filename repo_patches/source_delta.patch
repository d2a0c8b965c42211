From 173221de0c07f5c3a6ad38c7754f814d0c4b013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 01/12] fix: Mesh.count_selected_faces used NumPy on traced JAX
 arrays and always raised

---
 jax_fem/generate_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_fem/generate_mesh.py b/jax_fem/generate_mesh.py
index bd564c8..f53a174 100644
--- a/jax_fem/generate_mesh.py
+++ b/jax_fem/generate_mesh.py
@@ -40,14 +40,14 @@ class Mesh():
         face_count : int
         """
         _, _, _, _, face_inds = get_face_shape_vals_and_grads(self.ele_type)
-        cell_points = onp.take(self.points, self.cells, axis=0)
-        cell_face_points = onp.take(cell_points, face_inds, axis=1)
+        cell_points = np.take(self.points, self.cells, axis=0)
+        cell_face_points = np.take(cell_points, face_inds, axis=1)
 
         vmap_location_fn = jax.vmap(location_fn)
 
         def on_boundary(cell_points):
             boundary_flag = vmap_location_fn(cell_points)
-            return onp.all(boundary_flag)
+            return np.all(boundary_flag)
 
         vvmap_on_boundary = jax.vmap(jax.vmap(on_boundary))
         boundary_flags = vvmap_on_boundary(cell_face_points)
-- 
2.43.0


From efbadc1b70e284c6efca4d7627573cb3e41e6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 02/12] fix: jax_solver option precond=False passed a
 preconditioner returning None

---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index c071986..176d44f 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -66,7 +66,7 @@ def jax_solve(A, b, x0, precond):
     A_sp_scipy = scipy.sparse.csr_array((data, indices, indptr), shape=A.getSize())
     A = BCOO.from_scipy_sparse(A_sp_scipy).sort_indices()
     jacobi = np.array(A_sp_scipy.diagonal())
-    pc = lambda x: x * (1. / jacobi) if precond else None
+    pc = (lambda x: x * (1. / jacobi)) if precond else None
     
     if issubclass(PETSc.ScalarType, np.complexfloating):
         logger.debug("JAX Solver - Using PETSc with complex number support")
-- 
2.43.0


From ed5e28278acc9adf16d24704458f721bee268030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 03/12] fix: linear_solver wrote the default backend into the
 caller's options dict

---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 176d44f..86f8d2d 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -261,7 +261,7 @@ def AMGX_solve(A, b, x0, cfg_path):
 def linear_solver(A, b, x0, linear_options):
     # If user does not specify any solver, set jax_solver as the default one.
     if len(linear_options.keys() & {'jax_solver', 'amgx_solver', 'spsolve_solver', 'petsc_solver', 'custom_solver'}) == 0:
-        linear_options['jax_solver'] = {}
+        linear_options = {**linear_options, 'jax_solver': {}}
 
     if 'jax_solver' in linear_options:
         precond = linear_options['jax_solver']['precond'] if 'precond' in linear_options['jax_solver'] else True
-- 
2.43.0


From e2a6d26ecd4f49d1e2b6d2cf3a9dac3c19aa4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 04/12] fix: assembleCSR sized the matrix by the first variable
 only

---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 86f8d2d..d512172 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -876,7 +876,7 @@ def assembleCSR(problem, dofs):
     sol_list = problem.unflatten_fn_sol_list(dofs)
     problem.newton_update(sol_list)
     A_sp_scipy = scipy.sparse.csr_array((problem.V, (problem.I, problem.J)),
-        shape=(problem.fes[0].num_total_dofs, problem.fes[0].num_total_dofs))
+        shape=(problem.num_total_dofs_all_vars, problem.num_total_dofs_all_vars))
 
     for ind, fe in enumerate(problem.fes):
         for i in range(len(fe.node_inds_list)):
-- 
2.43.0


From 31e54499678665a12e8bf7d5ae8e99e505c88ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 05/12] fix: line search evaluated reduced dofs as full dofs
 under multipoint constraints

---
 jax_fem/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index d512172..edda65c 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -430,7 +430,11 @@ def line_search(problem, dofs, inc):
     res_fn = apply_bc(res_fn, problem)
 
     def res_norm_fn(alpha):
-        res_vec = res_fn(dofs + alpha*inc)
+        trial_dofs = dofs + alpha*inc
+        if hasattr(problem, 'P_mat'):
+            res_vec = problem.P_mat.T @ res_fn(problem.P_mat @ trial_dofs)
+        else:
+            res_vec = res_fn(trial_dofs)
         return np.linalg.norm(res_vec)
 
     # grad_res_norm_fn = jax.grad(res_norm_fn)
-- 
2.43.0


From d326fa0984d0944f103cfb073a0ffe05b91906ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 06/12] fix: implicit_vjp left traced parameters behind in the
 problem

---
 jax_fem/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index edda65c..c189049 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -1419,6 +1419,9 @@ def implicit_vjp(problem, sol_list, params, v_list, adjoint_solver_options):
     vjp_result = vjp_linear_fn(problem.unflatten_fn_sol_list(adjoint_vec))
     vjp_result = jax.tree_util.tree_map(lambda x: -x, vjp_result)
 
+    # The VJP traced set_params; restore concrete parameters in the problem.
+    problem.set_params(params)
+
     return vjp_result
 
 
-- 
2.43.0


From fc092178c6d3781208306c95451c8ea6711af7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 07/12] fix: walltime queried the platform through a removed
 JAX API

---
 jax_fem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index c9ce5c1..222e202 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -186,7 +186,7 @@ def walltime(txt_dir=None, filename=None):
             return_values = func(*list_args, **keyword_args)
             end_time = time.time()
             time_elapsed = end_time - start_time
-            platform = jax.lib.xla_bridge.get_backend().platform
+            platform = jax.default_backend()
             logger.info(
                 f"Time elapsed {time_elapsed} of function {func.__name__} "
                 f"on platform {platform}"
-- 
2.43.0


From fa6eabacca3b7c43503d609c5c1c2b2d3682c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 08/12] fix: save_sol failed for a file name without a
 directory

---
 jax_fem/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index 222e202..90bd0a9 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -40,7 +40,8 @@ def save_sol(fe, sol, sol_file, cell_infos=None, point_infos=None):
     """
     cell_type = get_meshio_cell_type(fe.ele_type)
     sol_dir = os.path.dirname(sol_file)
-    os.makedirs(sol_dir, exist_ok=True)
+    if sol_dir:
+        os.makedirs(sol_dir, exist_ok=True)
     out_mesh = meshio.Mesh(points=fe.points, cells={cell_type: fe.cells})
     out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)
     if cell_infos is not None:
-- 
2.43.0


From 28f6e2fc8a33a41ea3057f7c35149326c0893060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:53 +0000
Subject: [PATCH 09/12] fix: compute_filter_kd_tree indexed out of range with
 fewer than 20 flexible cells

---
 jax_fem/mma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 29e15c6..1601a7a 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -43,8 +43,8 @@ def compute_filter_kd_tree(fe):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        num_nbs = min(20, flex_num_cells)
+        dd, ii = kd_tree.query(flex_cell_centroids[i], np.arange(1, num_nbs + 1))
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
         I += [i]*num_nbs
-- 
2.43.0


From fd6bd383069e7088b6ca5f04bd88eb914c943d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:53 +0000
Subject: [PATCH 10/12] fix: AMGX backend returned unconverged solutions
 without an error

---
 jax_fem/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index c189049..d612dc7 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -206,6 +206,7 @@ def AMGX_solve_host(indptr, indices, data, shape_arr, x, b, cfg_path):
 
         res = onp.linalg.norm(A_csr @ result - b_host)
         logger.info("AMGX Solver - Finished solving, linear solve res = %.3g", res)
+        assert res < 0.1, f"AMGX linear solver failed to converge with err = {res}"
 
         return result.astype(dtype).reshape(shape_b)
 
-- 
2.43.0


From 27b882dc550e63fc9a17fa894e040c24f02ea8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:54 +0000
Subject: [PATCH 11/12] fix: compute_filter_kd_tree called numpy.take on JAX
 arrays, which raises

---
 jax_fem/mma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 1601a7a..9ee61fc 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -28,7 +28,7 @@ def compute_filter_kd_tree(fe):
     """This function is created by Tianju. Not from the original code.
     We use k-d tree algorithm to compute the filter.
     """
-    cell_centroids = np.mean(np.take(fe.points, fe.cells, axis=0), axis=1)
+    cell_centroids = np.mean(np.take(np.asarray(fe.points), np.asarray(fe.cells), axis=0), axis=1)
     flex_num_cells = len(fe.flex_inds)
     flex_cell_centroids = np.take(cell_centroids, fe.flex_inds, axis=0)
 
-- 
2.43.0


From b010e73e7f634033d606c471b2aca23f6faaa96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:16 +0000
Subject: [PATCH 12/12] fix: QUAD8 and HEX20 shape functions were not nodal
 (serendipity edge moments)

---
 jax_fem/basis.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/jax_fem/basis.py b/jax_fem/basis.py
index a7b7b04..d0e63d9 100644
--- a/jax_fem/basis.py
+++ b/jax_fem/basis.py
@@ -138,6 +138,23 @@ def _normalize_quadrature_rule(rule):
     )
 
 
+def _tabulate_nodal_basis(element_family, basix_ele, degree, points):
+    """Tabulate nodal shape functions and their first derivatives in basix node order.
+
+    The edge functions of the Basix serendipity family are dual to integral moments rather than
+    to values at the mid-edge nodes, so that family is transformed to the nodal basis.
+    """
+    element = basix.create_element(element_family, basix_ele, degree)
+    vals_and_grads = element.tabulate(1, points)
+    if element_family == basix.ElementFamily.serendipity:
+        vertices = basix.geometry(basix_ele)
+        edges = basix.topology(basix_ele)[1]
+        nodes = onp.concatenate([vertices, onp.array([onp.mean(vertices[edge], axis=0) for edge in edges])])
+        vals_at_nodes = element.tabulate(0, nodes)[0, :, :, 0]
+        vals_and_grads = onp.einsum('dpbk,bn->dpnk', vals_and_grads, onp.linalg.inv(vals_at_nodes))
+    return vals_and_grads
+
+
 def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=None):
     """Use `basix <https://github.com/FEniCS/basix>`_ to get shape function values and gradients for elements.
 
@@ -167,8 +184,7 @@ def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=No
 
     quad_points, weights = basix.make_quadrature(basix_ele, quadrature_order, rule=quadrature_rule)
 
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = _tabulate_nodal_basis(element_family, basix_ele, degree, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.info(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -241,8 +257,8 @@ def get_face_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_ord
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = _tabulate_nodal_basis(element_family, basix_ele, degree,
+                                           face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0

