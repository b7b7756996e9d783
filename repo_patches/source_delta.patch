From e4ae395fac7837d13c8ae110311aa15c426f7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 01/34] fix: index the fields by dimension when the loops are
 reordered by sorder

The space indices ordered for the loops were permuted a second time when the
fields were indexed: the ranges of the directions were exchanged, so a storage
order with exchanged directions failed (numpy) or read out of the arrays
(cython) as soon as the box was not square.
---
 pylbm/algorithm/base.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 559b090..2681969 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -63,6 +63,7 @@ Therefore, for our example we have
 
 """
 
+import numpy as np
 import sympy as sp
 from sympy import Eq
 
@@ -188,6 +189,16 @@ class BaseAlgorithm:
             priority=self.sorder[1:],
         )
 
+    def _logical_space_index(self, space_index):
+        """
+        Return the space indices in the order of the dimensions (x, y, z)
+        whatever the order of the loops given by sorder.
+        """
+        out = list(space_index)
+        for i, idx in zip(np.argsort(self.sorder[1:]), space_index):
+            out[i] = idx
+        return out
+
     def _get_indexed_on_range(self, name, space_index):
         """
         Return a SymPy matrix of indexed objects
@@ -212,7 +223,7 @@ class BaseAlgorithm:
         return indexed(
             name,
             [self.ns, nx, ny, nz],
-            [nv] + space_index,
+            [nv] + self._logical_space_index(space_index),
             velocities_index=range(self.ns),
             priority=self.sorder,
         )
@@ -243,7 +254,7 @@ class BaseAlgorithm:
         return indexed(
             name,
             [self.ns, nx, ny, nz],
-            [nv] + space_index,
+            [nv] + self._logical_space_index(space_index),
             velocities=velocities,
             priority=self.sorder,
         )
@@ -579,8 +590,11 @@ class BaseAlgorithm:
 
         if check_isfluid:
             valin = sp.Symbol("valin", real=True)
+            # in_or_out belongs to the domain: it is not permuted by sorder
             in_or_out = indexed(
-                "in_or_out", [nx, ny, nz], space_index, priority=self.sorder[1:]
+                "in_or_out",
+                [nx, ny, nz][: self.dim],
+                self._logical_space_index(space_index),
             )
             loop = lambda x: For(space_index, If((Eq(in_or_out, valin), x)))
         else:
-- 
2.43.0


From f8682ace83a7853787a39830ecbd58c9d8e2b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 02/34] fix: permute the conserved moments in front whatever
 the order they are listed in

The swaps used the original rows although previous swaps had moved them, so
moments were mixed when the conserved moments were not listed by row.
---
 pylbm/scheme.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 5b2cff4..b852c2d 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -224,8 +224,12 @@ class Scheme:
 
     def _permute_consm_in_front(self):
         self.permutations = []
+        # rows[i] is the original row at the position i after the successive swaps
+        rows = list(range(len(self.EQ)))
         for ic, c in enumerate(self.consm.values()):
-            self.permutations.append([ic, c])
+            ir = rows.index(c)
+            self.permutations.append([ic, ir])
+            rows[ic], rows[ir] = rows[ir], rows[ic]
 
         for p in self.permutations:
             self.EQ.row_swap(p[0], p[1])
-- 
2.43.0


From b786b27328269d39729745c60a83be75e1313741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 03/34] fix: keep the moments in step with the distribution
 functions

- transport() of the cython generator wrote into the second array without
  exchanging it with the current one: the streaming was lost;
- transport() and boundary_condition() did not mark the moments out of date;
- f2m() did not mark them up to date: a relaxation made after it was thrown
  away by the next read; the phases acting on moments used out of date ones;
- setting a moment discarded the out of date mark of the other ones.
---
 pylbm/simulation.py | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 3cec720..b48d10b 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -197,19 +197,25 @@ class Simulation:
         else:
             return self.dt_
 
+    def _sync_moments(self):
+        """
+        compute the moments if the distribution functions changed since
+        """
+        if self._update_m:
+            self.f2m()
+
     @utils.itemproperty
     def m_halo(self, i):
         """
         get the moment i on the whole domain with halo points.
         """
-        if self._update_m:
-            self._update_m = False
-            self.f2m()
+        self._sync_moments()
         return self.container.m[i]
 
     @m_halo.setter
     def m_halo(self, i, value):
-        self._update_m = False
+        # the other moments must follow the distribution functions
+        self._sync_moments()
         self.container.m[i] = value
 
     @utils.itemproperty
@@ -217,9 +223,7 @@ class Simulation:
         """
         get the moment i in the interior domain.
         """
-        if self._update_m:
-            self._update_m = False
-            self.f2m()
+        self._sync_moments()
 
         return self.container.m._in(i)  # pylint: disable=protected-access
 
@@ -312,6 +316,7 @@ class Simulation:
                 array_to_init[k] = v
 
         if self.init_type == "moments":
+            self._update_m = False  # the moments have just been set
             self.equilibrium()
             self.m2f()
         elif self.init_type == "distributions":
@@ -325,12 +330,20 @@ class Simulation:
         (the array _F is modified)
         """
         self.algo.call_function("transport", self, **kwargs)
+        if kwargs.get("f_user") is None:
+            self.container.F, self.container.Fnew = (
+                self.container.Fnew,
+                self.container.F,
+            )
+            self._update_m = True
 
     def relaxation(self, **kwargs):
         """
         compute the relaxation phase on moments
         (the array _m is modified)
         """
+        if kwargs.get("m_user") is None:
+            self._sync_moments()
         self.algo.call_function("relaxation", self, **kwargs)
 
     def source_term(self, fraction_of_time_step=1.0, **kwargs):
@@ -338,6 +351,8 @@ class Simulation:
         compute the source term phase on moments
         (the array _m is modified)
         """
+        if kwargs.get("m_user") is None:
+            self._sync_moments()
         self.algo.call_function("source_term", self, **kwargs)
 
     @monitor
@@ -347,6 +362,8 @@ class Simulation:
         (the array _m is modified)
         """
         self.algo.call_function("f2m", self, **kwargs)
+        if kwargs.get("m_user") is None:
+            self._update_m = False
 
     @monitor
     def m2f(self, m_user=None, f_user=None, **kwargs):
@@ -354,7 +371,11 @@ class Simulation:
         compute the distribution functions from the moments
         (the array _F is modified)
         """
+        if m_user is None:
+            self._sync_moments()
         self.algo.call_function("m2f", self, m_user, f_user, **kwargs)
+        if m_user is not None and f_user is None:
+            self._update_m = True
 
     @monitor
     def equilibrium(self, m_user=None, **kwargs):
@@ -368,6 +389,8 @@ class Simulation:
         Another moments vector can be set to equilibrium values:
         use directly the method of the class Scheme
         """
+        if m_user is None:
+            self._sync_moments()
         self.algo.call_function("equilibrium", self, m_user, **kwargs)
 
     @monitor
@@ -381,6 +404,8 @@ class Simulation:
         The array _F is modified in the phantom array (outer points)
         according to the specified boundary conditions.
         """
+        self._update_m = True  # the ghost points of f are modified
+
         f = self.container.F
         f.update()
 
-- 
2.43.0


From e6b9f31fcd635fd737cc6e9be916762177c02b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 04/34] fix: vmax is the largest displacement in absolute value

With a stencil whose velocities are not balanced (only (-1) for instance) the
signed maximum gave too few ghost points, or none.
---
 pylbm/stencil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index 38cb783..f5d7d79 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -716,7 +716,7 @@ class Stencil(list):
     def vmax(self):
         """the maximal velocity in norm for each spatial direction."""
         tmp = np.asarray([self.uvx, self.uvy, self.uvz])
-        return np.max(tmp[: self.dim], axis=1)
+        return np.max(np.abs(tmp[: self.dim]), axis=1)
 
     @property
     def vmin(self):
-- 
2.43.0


From 0c8c7b5a9d772e80a8ea74ba3c2e90e8c0ee8845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 05/34] fix: allow directions in which no velocity moves

The interior slices were empty (or a single point) and the exchange of an
empty halo was refused by MPI.
---
 pylbm/domain.py  |  2 +-
 pylbm/storage.py | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index eae2ae4..69ce819 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -434,7 +434,7 @@ class Domain:
         # modification to avoid the case
         # with no velocity in one direction
         ind_beg = [k for k in halo_size]
-        ind_end = [-k if k > 0 else 1 for k in halo_size]
+        ind_end = [-k if k > 0 else None for k in halo_size]
         self.coords = [
             # self.coords_halo[k][halo_size[k]:-halo_size[k]]
             self.coords_halo[k][ind_beg[k] : ind_end[k]]
diff --git a/pylbm/storage.py b/pylbm/storage.py
index 2cf7e47..e65ec2f 100644
--- a/pylbm/storage.py
+++ b/pylbm/storage.py
@@ -147,7 +147,7 @@ class Array:
     def _in(self, key):
         ind = []
         for vmax in self.vmax:
-            ind.append(slice(vmax, -vmax))
+            ind.append(slice(vmax, -vmax if vmax > 0 else None))
         ind = np.asarray(ind)
 
         if self.gpu_support:
@@ -246,6 +246,12 @@ class Array:
         self.recv_type = []
 
         for d in range(dim):  # pylint: disable=invalid-name
+            if vmax[d] == 0:
+                # no velocity in this direction: there is no ghost point
+                self.send_type.extend([None, None])
+                self.recv_type.extend([None, None])
+                continue
+
             subsizes = [nv] + nspace
             subsizes[d + 1] = vmax[d]
             subsizes = swap(subsizes)
@@ -299,8 +305,9 @@ class Array:
             )
 
         for send, recv in zip(self.send_type, self.recv_type):
-            send.Commit()
-            recv.Commit()
+            if send is not None:
+                send.Commit()
+                recv.Commit()
 
     # pylint: disable=possibly-unused-variable
     @monitor
@@ -332,6 +339,9 @@ class Array:
 
         else:
             for d in range(self.dim):  # pylint: disable=invalid-name
+                if self.vmax[d] == 0:
+                    continue
+
                 req = []
 
                 req.append(
-- 
2.43.0


From 3aa64369d95c7ed20b89eb0c74a92cfd4cdce79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 06/34] fix: refuse a box which is not a multiple of the space
 step

The tolerance on the number of cells was compared with the space step, so
any box was accepted as soon as the space step was larger than one half.
---
 pylbm/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 69ce819..09c9333 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -395,7 +395,8 @@ class Domain:
             if not self.global_size[-1].is_integer():
                 dummy = round(self.global_size[-1])
                 diff_n = dummy - self.global_size[-1]
-                if abs(diff_n) < self.dx:
+                # only rounding errors are accepted (in number of cells)
+                if abs(diff_n) < 1e-6:
                     message = "The length of the box "
                     message += "in the direction {0:d} ".format(k)
                     message += "is not exactly a multiple of the space step\n"
-- 
2.43.0


From b603726aeca8f0cbd2b1eca1a766d35a86575ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 07/34] fix: a wall is seen by the links that also cross a
 periodic side

At the corner of a periodic side and a wall (when the periodic direction comes
first, or when the periodic side is crossed first by a long displacement) the
periodic label hid the wall: the distributions leaked through it to the
opposite wall.
---
 pylbm/domain.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 09c9333..9e80a58 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -480,9 +480,17 @@ class Domain:
         if self.compute_normal:
             norm_view = self.normal[tuple(phys_domain_vect)]
 
-        def new_indices(dvik, iuv, indices, dist_view):
+        def new_indices(dvik, iuv, indices, dist_view, side_label):
             new_ind = copy.deepcopy(indices)
-            ind = np.where(dist_view[tuple(indices)] > dvik)
+            closer = dist_view[tuple(indices)] > dvik
+            # a side which is not periodic is a wall also for the links
+            # that cross a periodic side
+            flag = flag_view[tuple(indices)]
+            if side_label == -1:
+                closer &= flag == self.valin
+            else:
+                closer |= flag == -1
+            ind = np.where(closer)
             i = 1
             for j in range(self.dim):
                 if j != iuv:
@@ -503,7 +511,9 @@ class Domain:
                     for i in range(-vk):
                         indices[iuvel + 1] = i
                         dvik = -(i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(
+                            dvik, iuvel, indices, dist_view, label[2 * iuvel]
+                        )
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel]
                         if self.compute_normal:
@@ -513,7 +523,9 @@ class Domain:
                     for i in range(vk):
                         indices[iuvel + 1] = -i - 1
                         dvik = (i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(
+                            dvik, iuvel, indices, dist_view, label[2 * iuvel + 1]
+                        )
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel + 1]
                         if self.compute_normal:
-- 
2.43.0


From 2cef274640ad4ae870f294b0bcd8c4495196b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 08/34] fix: evaluate all the source terms before the moments
 are modified

---
 pylbm/algorithm/base.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 2681969..1f38287 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -503,7 +503,24 @@ class BaseAlgorithm:
                 rhs_eq[lhs.i] = dummy.rhs.subs(ind_to_subs)
             else:
                 rhs_eq[lhs.i] = dummy.rhs
-        return [Eq(m, sp.Matrix(rhs_eq))]
+
+        # the sources which use other modified moments are evaluated before
+        # the moments are modified
+        modified = [i for i, (mm, rhs) in enumerate(zip(m, rhs_eq)) if mm != rhs]
+        code = []
+        for i in modified:
+            if any(rhs_eq[i].has(m[j]) for j in modified if j != i):
+                tmp = sp.Symbol("source_%d" % i, real=True)
+                code.append(Eq(tmp, rhs_eq[i]))
+                rhs_eq[i] = tmp
+        code.append(Eq(m, sp.Matrix(rhs_eq)))
+        return code
+
+    def source_term_vars(self):
+        """
+        Return the local variables which can be used by source_term_local.
+        """
+        return [sp.Symbol("source_%d" % lhs.i, real=True) for lhs, _ in self.source_eq]
 
     def source_term(self):
         """
@@ -512,7 +529,10 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_inner()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.source_term_local(m))}
+        return {
+            "code": For(space_index, self.source_term_local(m)),
+            "local_vars": self.source_term_vars(),
+        }
 
     def one_time_step_local(self, f, fnew, m):
         """
@@ -602,14 +622,20 @@ class BaseAlgorithm:
 
         if split:
             # code = [loop([*self.coords(), i]) for i in internal]
-            code = [loop([i]) for i in internal]
+            # the local variables must be in the loop which uses them
+            code, statements = [], []
+            for i in internal:
+                statements.append(i)
+                if not isinstance(getattr(i, "lhs", None), sp.Symbol):
+                    code.append(loop(statements))
+                    statements = []
         else:
             # code = loop([*self.coords(), *internal])
             code = loop([*internal])
 
         return {
             "code": code,
-            "local_vars": local_vars + self.local_vars,
+            "local_vars": local_vars + self.local_vars + self.source_term_vars(),
             "settings": {"prefetch": [f[0]]},
         }
 
-- 
2.43.0


From 71f2da78e8e79eccd94fda3fc6be16e53557084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:37 +0000
Subject: [PATCH 09/34] fix: the bounds of a cylinder contain its two ends

---
 pylbm/elements/cylinder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index d458b59..59aeb31 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -59,7 +59,8 @@ class Cylinder(Element):
             minimal box where the cylinder is included
 
         """
-        lw = [0.5 * abs(self.w[k]) for k in range(len(self.w))]
+        # the cylinder is limited by -1 < z < 1 in the direction of w
+        lw = np.abs(self.w)
         bounds_base = self.base.get_bounds()
         return bounds_base[0] - lw, bounds_base[1] + lw
 
-- 
2.43.0


From 5ba889c21ebc7c2102ef8abfbdcea28d04aca85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:37 +0000
Subject: [PATCH 10/34] fix: shape of the distance to the sides of an element
 in a window of one point

---
 pylbm/elements/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pylbm/elements/utils.py b/pylbm/elements/utils.py
index 69abdcb..640905d 100644
--- a/pylbm/elements/utils.py
+++ b/pylbm/elements/utils.py
@@ -47,10 +47,7 @@ def distance_lines(x, y, v, p, vt, dmax, label, normal):
     # Warning: the shape can be
     #   - (x.size, y.size) for the 2D geometries
     #   - x.shape = y.shape for the 3D geometries
-    if x.shape[1] == 1 and y.shape[0] == 1:
-        shape = (x.size, y.size)
-    else:
-        shape = x.shape
+    shape = np.broadcast(x, y).shape
     v2 = [x, y]
     alpha = tgv * np.ones(shape)
     border = -np.ones(shape)
-- 
2.43.0


From a49d69f18eba3e430933545980b65a87829d3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 11/34] fix: unit normals, opposite to the velocity, on the
 sides of a cylinder

---
 pylbm/elements/cylinder.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index 59aeb31..83b9502 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -206,13 +206,20 @@ class Cylinder(Element):
         # fix the distance
         alpha[alpha == 1.0e16] = -1.0
         # rewritte the normal vector in the initial frame
+        # (a normal is transformed by the transpose of the inverse)
         normal_vect = np.zeros(normal_cyl.shape)
         for k in range(3):
             normal_vect[..., k] = (
-                self.A[k, 0] * normal_cyl_x
-                + self.A[k, 1] * normal_cyl_y
-                + self.A[k, 2] * normal_cyl_z
+                self.iA[0, k] * normal_cyl_x
+                + self.iA[1, k] * normal_cyl_y
+                + self.iA[2, k] * normal_cyl_z
             )
+        # compute the sense (opposite to v)
+        normal_vect[normal_vect.dot(np.asarray(v)) > 0] *= -1
+        # normalization
+        norm_normal = np.linalg.norm(normal_vect, axis=-1)
+        norm_normal[norm_normal == 0] = 1.0
+        normal_vect /= norm_normal[..., np.newaxis]
 
         return alpha, border, normal_vect
 
-- 
2.43.0


From 2bd6b41ad9c5035e2aa7095f92c8c45a93abb556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:53 +0000
Subject: [PATCH 12/34] fix: the links through a periodic side or an interface
 see the elements, not the halo

Every point of the halo was considered as solid: a link crossing a periodic
side (or the interface between two processes) had a wall as soon as it crossed
the border of an element, even if both ends are fluid. A fluid element larger
than the box replaced the distance to the walls of the box by the distance to
its own border.
---
 pylbm/domain.py | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 9e80a58..4fa30d1 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -294,10 +294,25 @@ class Domain:
 
         # compute the distance and the flag for the primary box
         self.__add_init(self.box_label)
+        # points that are solid for the links: beyond the walls of the box
+        # (not beyond a periodic side or an interface) and in the elements
+        walls = np.zeros(self.shape_halo, dtype=bool)
+        for i, h in enumerate(self.stencil.vmax):
+            beyond = [slice(None)] * self.dim
+            if h > 0 and self.box_label[2 * i] >= 0:
+                beyond[i] = slice(h)
+                walls[tuple(beyond)] = True
+            if h > 0 and self.box_label[2 * i + 1] >= 0:
+                beyond[i] = slice(-h, None)
+                walls[tuple(beyond)] = True
+        solid = walls.copy()
         for elem in self.geom.list_elem:
             # treat each element of the geometry
-            self.__add_elem(elem)
+            self.__add_elem(elem, solid, walls)
 
+        # a fluid element does not extend the box beyond its walls
+        if self.geom.list_elem:
+            self.__add_sides(self.box_label)
         self.clean()
         log.info(self.__str__())
 
@@ -464,11 +479,16 @@ class Domain:
     def __add_init(self, label):
         halo_size = np.asarray(self.stencil.vmax)
         phys_domain = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
-        phys_domain_vect = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         self.in_or_out[:] = self.valout
         in_view = self.in_or_out[tuple(phys_domain)]
         in_view[:] = self.valin
+        self.__add_sides(label)
 
+    # pylint: disable=too-many-locals
+    def __add_sides(self, label):
+        halo_size = np.asarray(self.stencil.vmax)
+        phys_domain = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
+        phys_domain_vect = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         # first index: the velocity index
         # following indices: the physical points
         # last index (for vectors): the dimension
@@ -533,7 +553,7 @@ class Domain:
                             norm_view[tuple(nind + [iuvel])] = 1
 
     # pylint: disable=too-many-locals
-    def __add_elem(self, elem):
+    def __add_elem(self, elem, solid, walls):
         """
         Add an element
 
@@ -549,8 +569,17 @@ class Domain:
         phys_bl, _ = self.get_bounds_halo()
         tmp = np.array((elem_bl - phys_bl) / self.dx, int) - vmax
         nmin = np.maximum(vmax, tmp)
+        nmin_halo = np.maximum(0, tmp)
         tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
-        nmax = np.minimum(vmax + self.shape_in, tmp)
+        nmax = np.maximum(nmin, np.minimum(vmax + self.shape_in, tmp))
+        nmax_halo = np.maximum(nmin_halo, np.minimum(self.shape_halo, tmp))
+
+        # add the element in the solid points, halo included
+        space_slice = [slice(imin, imax) for imin, imax in zip(nmin_halo, nmax_halo)]
+        tcoords = (self.coords_halo[d][s] for d, s in enumerate(space_slice))
+        grid = np.meshgrid(*tcoords, sparse=True, indexing="ij")
+        solid[tuple(space_slice)][elem.point_inside(grid)] = not elem.isfluid
+        solid[walls] = True
 
         # set the grid
         space_slice = [slice(imin, imax) for imin, imax in zip(nmin, nmax)]
@@ -584,7 +613,7 @@ class Domain:
                 ]
                 # check the cells that are out
                 # when we move with the vk velocity
-                out_cells = self.in_or_out[tuple(space_slice)] == self.valout
+                out_cells = solid[tuple(space_slice)]
                 # compute the distance and set the boundary label
                 # of each cell and the element with the vk velocity
                 alpha, border, normvect = elem.distance(
-- 
2.43.0


From 8ed9870b35f9725e7076c5ebe57e12db994dc781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 13/34] fix: an element hidden by a periodic side, or reached
 exactly by a link, is a wall

The distance to a periodic side hid the wall of an element seen through it, and
a link whose end is exactly on the border of an element (hence in the solid)
had no wall when the distance was rounded above 1.
---
 pylbm/domain.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 4fa30d1..0f2f8e6 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -537,7 +537,7 @@ class Domain:
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel]
                         if self.compute_normal:
-                            norm_view[tuple(nind + [slice(0, iuvel)])] = 0
+                            norm_view[tuple(nind + [slice(None)])] = 0
                             norm_view[tuple(nind + [iuvel])] = -1
                 elif vk > 0 and label[2 * iuvel + 1] != -2:
                     for i in range(vk):
@@ -549,7 +549,7 @@ class Domain:
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel + 1]
                         if self.compute_normal:
-                            norm_view[tuple(nind + [slice(0, iuvel)])] = 0
+                            norm_view[tuple(nind + [slice(None)])] = 0
                             norm_view[tuple(nind + [iuvel])] = 1
 
     # pylint: disable=too-many-locals
@@ -616,9 +616,12 @@ class Domain:
                 out_cells = solid[tuple(space_slice)]
                 # compute the distance and set the boundary label
                 # of each cell and the element with the vk velocity
+                # (a displaced point on the border is solid: the rounding errors
+                # must not hide the border)
                 alpha, border, normvect = elem.distance(
-                    grid, self.dx * vk, 1.0, self.compute_normal
+                    grid, self.dx * vk, 1.0 + 1e-10, self.compute_normal
                 )
+                alpha = np.minimum(alpha, 1.0)
                 # take the indices where the distance is lower than 1
                 # between a fluid cell and the border of the element
                 # with the vk velocity
@@ -644,13 +647,19 @@ class Domain:
 
                 # set distance
                 ind4 = np.where(indx)
+                # (a periodic side does not hide the element)
+                periodic = flag_view[k][ind4] == -1
                 if not elem.isfluid:
-                    ind3 = np.where(alpha[ind4] < dist_view[k][ind4])[0]
+                    closer = alpha[ind4] < dist_view[k][ind4]
+                    ind3 = np.where(np.logical_or(closer, periodic))[0]
                 else:
                     ind3 = np.where(
-                        np.logical_or(
-                            alpha[ind4] > dist_view[k][ind4],
-                            dist_view[k][ind4] == self.valin,
+                        np.logical_or.reduce(
+                            [
+                                alpha[ind4] > dist_view[k][ind4],
+                                dist_view[k][ind4] == self.valin,
+                                periodic,
+                            ]
                         )
                     )[0]
 
-- 
2.43.0


From 96c03bbb98860d3c3c739b3365d2bce2f8615788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:53 +0000
Subject: [PATCH 14/34] fix: the links of a fluid element do not keep the
 borders it covers

---
 pylbm/domain.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 0f2f8e6..9ee55bb 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -309,10 +309,10 @@ class Domain:
         for elem in self.geom.list_elem:
             # treat each element of the geometry
             self.__add_elem(elem, solid, walls)
+            if elem.isfluid:
+                # a fluid element does not extend the box beyond its walls
+                self.__add_sides(self.box_label)
 
-        # a fluid element does not extend the box beyond its walls
-        if self.geom.list_elem:
-            self.__add_sides(self.box_label)
         self.clean()
         log.info(self.__str__())
 
@@ -641,6 +641,11 @@ class Domain:
                     )
                     dist_view[k][border_to_interior] = self.valin
                     flag_view[k][border_to_interior] = self.valin
+                    # the borders reached before leaving the element are covered
+                    covered = np.logical_or(alpha <= 0, dist_view[k] < alpha)
+                    covered = np.logical_and(ind_fluid, covered)
+                    dist_view[k][covered] = self.valin
+                    flag_view[k][covered] = self.valin
                 else:
                     dist_view[k][ind_solid] = self.valin
                     flag_view[k][ind_solid] = self.valin
-- 
2.43.0


From b84c09d3fc612813d0295700f76dccb593deac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:53 +0000
Subject: [PATCH 15/34] fix: the window of an element contains a point exactly
 on its border

---
 pylbm/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 9ee55bb..e83f203 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -570,7 +570,8 @@ class Domain:
         tmp = np.array((elem_bl - phys_bl) / self.dx, int) - vmax
         nmin = np.maximum(vmax, tmp)
         nmin_halo = np.maximum(0, tmp)
-        tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
+        # (one more point: the border can be exactly on a point)
+        tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 2
         nmax = np.maximum(nmin, np.minimum(vmax + self.shape_in, tmp))
         nmax_halo = np.maximum(nmin_halo, np.minimum(self.shape_halo, tmp))
 
-- 
2.43.0


From e97719d4ebd9d7806117df60871302376d5cae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:50 +0000
Subject: [PATCH 16/34] fix: accept the axes of an ellipse which are orthogonal
 up to rounding errors

---
 pylbm/elements/ellipse.py   | 4 +++-
 pylbm/elements/ellipsoid.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylbm/elements/ellipse.py b/pylbm/elements/ellipse.py
index 809b0c3..0796902 100644
--- a/pylbm/elements/ellipse.py
+++ b/pylbm/elements/ellipse.py
@@ -81,7 +81,9 @@ class Ellipse(Element):
         self.number_of_bounds = 1  # number of edges
         self.dim = 2
         self.center = np.asarray(center)
-        if abs(v1[0] * v2[0] + v1[1] * v2[1]) > 1.0e-14:
+        # up to rounding errors
+        tol = 1.0e-14 * max(1, np.linalg.norm(v1) * np.linalg.norm(v2))
+        if abs(v1[0] * v2[0] + v1[1] * v2[1]) > tol:
             log.error("The vectors of the ellipse are not orthogonal")
         else:
             self.v1 = np.asarray(v1)
diff --git a/pylbm/elements/ellipsoid.py b/pylbm/elements/ellipsoid.py
index c5804af..1f18f8d 100644
--- a/pylbm/elements/ellipsoid.py
+++ b/pylbm/elements/ellipsoid.py
@@ -90,7 +90,9 @@ class Ellipsoid(Element):
         p12 = abs(v1[0] * v2[0] + v1[1] * v2[1] + v1[2] * v2[2])
         p23 = abs(v2[0] * v3[0] + v2[1] * v3[1] + v2[2] * v3[2])
         p31 = abs(v3[0] * v1[0] + v3[1] * v1[1] + v3[2] * v1[2])
-        if max(p12, p23, p31) > 1.0e-14:
+        # up to rounding errors
+        tol = 1.0e-14 * max(1, *(np.linalg.norm(v) ** 2 for v in (v1, v2, v3)))
+        if max(p12, p23, p31) > tol:
             log.error("The vectors of the ellipsoid are not orthogonal")
         else:
             self.v1 = np.asarray(v1)
-- 
2.43.0


From b3b957183fda2afa1c88e254591fb919fde69add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:32 +0000
Subject: [PATCH 17/34] fix: a set of stencils is symmetric when all of them
 are

---
 pylbm/stencil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index f5d7d79..1f73fcc 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -850,6 +850,7 @@ class Stencil(list):
         """
         check if all the velocities have their symmetric.
         """
+        all_sym = True
         for n in range(self.nstencils):
             is_sym = True
             scheme_velocities = np.array(self.num[n])
@@ -868,7 +869,8 @@ class Stencil(list):
                 log.info("The stencil %d is symmetric", n)
             else:
                 log.warning("The stencil %d is not symmetric", n)
-        return is_sym
+                all_sym = False
+        return all_sym
 
     # pylint: disable=too-many-locals, too-many-branches, too-many-statements
     # pylint: disable=too-complex
-- 
2.43.0


From ea416900849ef787d91969a9256cbf9ecf8766a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:20 +0000
Subject: [PATCH 18/34] fix: account for recursive monitored calls and those
 which raise

---
 pylbm/monitoring.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pylbm/monitoring.py b/pylbm/monitoring.py
index 4ddc669..fa20e3a 100644
--- a/pylbm/monitoring.py
+++ b/pylbm/monitoring.py
@@ -32,6 +32,7 @@ class Node:
         self.name = name
         self.sons = []
         self.time = 0
+        self.start = 0
 
     def add_node(self, name):
         self.sons.append(Node(self, name))
@@ -71,15 +72,15 @@ class Monitoring:
     def start_timing(self, f):
         info = self.information(f)
         self.tree = self.tree.add_node(info)
-        self.func[info].total_time.append(mpi.Wtime())
-        self.func[info].self_time.append(0)
+        self.tree.start = mpi.Wtime()
 
     def stop_timing(self, f):
         info = self.information(f)
         t = mpi.Wtime()
-        self.func[info].total_time[-1] = t - self.func[info].total_time[-1]
-        self.tree.add_time(self.func[info].total_time[-1])
-        self.func[info].self_time[-1] = self.func[info].total_time[-1] - self.tree.time
+        total_time = t - self.tree.start
+        self.func[info].total_time.append(total_time)
+        self.func[info].self_time.append(total_time - self.tree.time)
+        self.tree.add_time(total_time)
         self.tree = self.tree.del_node()
 
     def print(self):
@@ -124,8 +125,9 @@ def monitor(f):
     def wrapper(*args, **kwds):
         Monitor.register(f)
         Monitor.start_timing(f)
-        output = f(*args, **kwds)
-        Monitor.stop_timing(f)
-        return output
+        try:
+            return f(*args, **kwds)
+        finally:
+            Monitor.stop_timing(f)
 
     return wrapper
-- 
2.43.0


From 5e8e65e2de9c505198fe3cd47ae8b579678fe780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:33 +0000
Subject: [PATCH 19/34] fix: write the hdf5 and xdmf files in the current
 directory by default

---
 pylbm/hdf5.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 4570391..6d9afd3 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -40,10 +40,10 @@ class H5File:
         self.xdmf_file = None
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-            if not os.path.exists(path):
+            if path and not os.path.exists(path):
                 os.mkdir(path)
 
-            self.h5file = h5py.File(path + "/" + self.h5filename, "w")
+            self.h5file = h5py.File(os.path.join(path, self.h5filename), "w")
 
         # All the processes wait for the creation of the output directory
         mpi.COMM_WORLD.Barrier()
@@ -254,7 +254,9 @@ class H5File:
         comm = self.mpi_topo.cartcomm
         if comm.Get_rank() == 0:
             self.h5file.close()
-            self.xdmf_file = open(self.path + "/" + self.filename + ".xdmf", "w")
+            self.xdmf_file = open(
+                os.path.join(self.path, self.filename + ".xdmf"), "w"
+            )
             self.xdmf_file.write(
                 """<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
-- 
2.43.0


From fd5351c8e0f576c5b48e09798701bd3ae5fedae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:33 +0000
Subject: [PATCH 20/34] fix: save the grid when the sub domains have different
 sizes or one point

---
 pylbm/hdf5.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 6d9afd3..bedd1c5 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -76,17 +76,10 @@ class H5File:
         if not self._init_grid:
             log.warning("h5 grid redefined.")
 
-        self.origin = [x[0]]
-        self.dx = [x[1] - x[0]]
-        coords = [x]
-        if y is not None:
-            self.origin.append(y[0])
-            self.dx.append(y[1] - y[0])
-            coords.append(y)
-        if z is not None:
-            self.origin.append(z[0])
-            self.dx.append(z[1] - z[0])
-            coords.append(z)
+        coords = [c for c in (x, y, z) if c is not None]
+        self.origin = [c[0] for c in coords]
+        # (no step for a sub domain of one point)
+        self.dx = [c[1] - c[0] if c.size > 1 else None for c in coords]
 
         self.dim = len(self.origin)
         self.n = [0] * self.dim
@@ -103,7 +96,8 @@ class H5File:
             self.n[i] = comm.allreduce(coords[i].size, op=mpi.SUM)
             self.region.append(comm.gather(coords[i].size, root=0))
             self.global_size.append(np.sum(np.asarray(self.region[i])))
-            coords[i] = np.asarray(comm.gather(coords[i], root=0))
+            # (the sub domains can have different sizes)
+            coords[i] = comm.gather(coords[i], root=0)
             comm.Free()
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-- 
2.43.0


From 5c7f44d2d72964bf1d144fa36a173f22bd5e25a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:33 +0000
Subject: [PATCH 21/34] fix: send the components of a vector as doubles

---
 pylbm/hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index bedd1c5..0444321 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -239,7 +239,11 @@ class H5File:
             self.vectors[name] = self.h5filename + ":/" + name
         else:
             for i, data in enumerate(datas):
-                comm.Send([np.ascontiguousarray(data.T), mpi.DOUBLE], dest=0, tag=i)
+                comm.Send(
+                    [np.ascontiguousarray(data.T, dtype=np.double), mpi.DOUBLE],
+                    dest=0,
+                    tag=i,
+                )
 
     def save(self):
         """
-- 
2.43.0


From 308a2a6fb6127ab68dcfb70b99b643bc403f6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:33 +0000
Subject: [PATCH 22/34] fix: true dimensions of the topology and of the vectors
 in the xdmf file

---
 pylbm/hdf5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 0444321..9ef3b3d 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -269,7 +269,7 @@ class H5File:
                     <Topology TopologyType="2DRectMesh" NumberOfElements="{0}"/>
                     <Geometry GeometryType="VXVY">
                 """.format(
-                        " ".join(map(str, self.global_size))
+                        " ".join(map(str, self.global_size[::-1]))
                     )
                 )
             else:
@@ -279,7 +279,7 @@ class H5File:
                     <Topology TopologyType="3DRectMesh" NumberOfElements="{0}"/>
                     <Geometry GeometryType="VXVYVZ">
                 """.format(
-                        " ".join(map(str, self.global_size))
+                        " ".join(map(str, self.global_size[::-1]))
                     )
                 )
             for i in range(self.dim):
@@ -312,12 +312,12 @@ class H5File:
                 self.xdmf_file.write(
                     """
                 <Attribute Name="{0}" AttributeType="Vector" Center="Node">
-                <DataItem Format="HDF" Dimensions="{1} {2}">
-                {3}
+                <DataItem Format="HDF" Dimensions="{1} 3">
+                {2}
                 </DataItem>
                 </Attribute>
                 """.format(
-                        k, " ".join(map(str, self.global_size[::-1])), self.dim, v
+                        k, " ".join(map(str, self.global_size[::-1])), v
                     )
                 )
 
-- 
2.43.0


From 4cb8e389c8539ca8827570cfdc248fd2b456fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:00 +0000
Subject: [PATCH 23/34] fix: relax in the moving frame with any rates, sources
 and algorithm

---
 pylbm/algorithm/base.py | 115 ++++++++++++++++------------------------
 pylbm/algorithm/pull.py |  15 ++----
 2 files changed, 48 insertions(+), 82 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 1f38287..a717f16 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -107,10 +107,6 @@ class BaseAlgorithm:
             self.Tu = scheme.Tu.subs(scheme.param.items())
             self.Tmu = scheme.Tmu.subs(scheme.param.items())
 
-            self.Mu = self.Tu * self.M
-            self.invMu = self.invM * self.Tmu
-            alltogether(self.Mu, nsimplify=True)
-            alltogether(self.invMu, nsimplify=True)
         else:
             self.rel_vel_symb = None
 
@@ -263,16 +259,6 @@ class BaseAlgorithm:
         rel_vel = sp.Matrix(self.rel_vel).subs(list(zip(self.mv, m)))
         return [Eq(self.rel_vel_symb[i], rel_vel[i]) for i in range(self.dim)]
 
-    def restore_conserved_moments(self, m, f):
-        nconsm = len(self.consm)
-
-        if isinstance(m[nconsm:], list):
-            m_consm = sp.Matrix(m[:nconsm])
-        else:
-            m_consm = m[:nconsm]
-
-        return Eq(m_consm, sp.Matrix((self.Mu * f)[:nconsm]))
-
     def coords(self):
         coord = []
         for x in self.symb_coord[: self.dim]:
@@ -306,7 +292,7 @@ class BaseAlgorithm:
         fnew = self._get_indexed_on_range("fnew", space_index)
         return {"code": For(space_index, self.transport_local(f, fnew))}
 
-    def f2m_local(self, f, m, with_rel_velocity=False):
+    def f2m_local(self, f, m):
         """
         Return symbolic expression which computes the moments from the
         distributed functions.
@@ -320,29 +306,8 @@ class BaseAlgorithm:
         m : SymPy Matrix
             indexed objects for the moments
 
-        with_rel_velocity : boolean
-            check if the scheme uses relative velocity.
-            If yes, the conserved moments must be computed first.
-            (default is False)
-
         """
-        if with_rel_velocity:
-            nconsm = len(self.consm)
-
-            if isinstance(m[:nconsm], list):
-                m_consm = sp.Matrix(m[:nconsm])
-                m_notconsm = sp.Matrix(m[nconsm:])
-            else:
-                m_consm = m[:nconsm]
-                m_notconsm = m[nconsm:]
-
-            return [
-                Eq(m_consm, sp.Matrix((self.M * f)[:nconsm])),
-                *self.relative_velocity(m),
-                Eq(m_notconsm, sp.Matrix((self.Mu * f)[nconsm:])),
-            ]
-        else:
-            return Eq(m, self.M * f)
+        return Eq(m, self.M * f)
 
     def f2m(self):
         """
@@ -354,7 +319,7 @@ class BaseAlgorithm:
         m = self._get_indexed_on_range("m", space_index)
         return {"code": For(space_index, self.f2m_local(f, m))}
 
-    def m2f_local(self, m, f, with_rel_velocity=False):
+    def m2f_local(self, m, f):
         """
         Return symbolic expression which computes the distributed functions
         from the moments.
@@ -368,16 +333,8 @@ class BaseAlgorithm:
         f : SymPy Matrix
             indexed objects for the distributed functions
 
-        with_rel_velocity : boolean
-            check if the scheme uses relative velocity.
-            If yes, the conserved moments must be computed first.
-            (default is False)
-
         """
-        if with_rel_velocity:
-            return Eq(f, self.invMu * m)
-        else:
-            return Eq(f, self.invM * m)
+        return Eq(f, self.invM * m)
 
     def m2f(self):
         """
@@ -412,9 +369,14 @@ class BaseAlgorithm:
         m = self._get_indexed_on_range("m", space_index)
         return {"code": For(space_index, self.equilibrium_local(m))}
 
-    def relaxation_local(self, m, with_rel_velocity=False):
+    def relaxation_local(self, m):
         """
-        Return symbolic expression which computes the relaxation operator.
+        Return symbolic expressions which compute the relaxation operator.
+
+        If the scheme uses a relative velocity, the moments which are not
+        conserved relax in the moving frame:
+
+            m + Tmu * s * Tu * (eq - m)
 
         Parameters
         ----------
@@ -422,21 +384,38 @@ class BaseAlgorithm:
         m : SymPy Matrix
             indexed objects for the moments
 
-        with_rel_velocity : boolean
-            check if the scheme uses relative velocity.
-            (default is False)
-
         """
-        if with_rel_velocity:
-            eq = (self.Tu * self.eq).subs(list(zip(self.mv, m)))
-        else:
-            eq = self.eq.subs(list(zip(self.mv, m)))
+        eq = self.eq.subs(list(zip(self.mv, m)))
         # Ensure eq is a SymbolicVector for element-wise multiplication with self.s
         if not isinstance(eq, SymbolicVector):
             eq = SymbolicVector(eq)
+
+        if self.rel_vel_symb:
+            nconsm = len(self.consm)
+            moments = [mm for mm in m]
+            relax = self.Tu * sp.Matrix([e - mm for e, mm in zip(eq, moments)])
+            relax = [s * r for s, r in zip(self.s, relax)][nconsm:]
+            back = self.Tmu[nconsm:, nconsm:] * sp.Matrix(self.relaxation_vars())
+            return [
+                *self.relative_velocity(m),
+                *[Eq(v, r) for v, r in zip(self.relaxation_vars(), relax)],
+                Eq(m, sp.Matrix(moments) + sp.zeros(nconsm, 1).col_join(back)),
+            ]
+
         relax = (1 - self.s) * m + self.s * eq
         alltogether(relax)
-        return Eq(m, relax)
+        return [Eq(m, relax)]
+
+    def relaxation_vars(self):
+        """
+        Return the local variables which can be used by relaxation_local.
+        """
+        if not self.rel_vel_symb:
+            return []
+        return [
+            sp.Symbol("relax_%d" % i, real=True)
+            for i in range(len(self.consm), self.ns)
+        ]
 
     def relaxation(self):
         """
@@ -445,7 +424,10 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_full()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.relaxation_local(m))}
+        return {
+            "code": For(space_index, self.relaxation_local(m)),
+            "local_vars": (self.rel_vel_symb or []) + self.relaxation_vars(),
+        }
 
     def source_term_local(self, m):
         """
@@ -559,24 +541,17 @@ class BaseAlgorithm:
             indexed objects for the moments
 
         """
-        with_rel_velocity = True if self.rel_vel_symb else False
-
-        code = [self.transport_local(f, fnew)]
-        f2m = self.f2m_local(fnew, m, with_rel_velocity)
-        if isinstance(f2m, list):
-            code.extend(f2m)
-        else:
-            code.append(f2m)
+        code = [self.transport_local(f, fnew), self.f2m_local(fnew, m)]
 
         if self.source_eq:
             code.extend(self.source_term_local(m))
 
-        code.append(self.relaxation_local(m, with_rel_velocity))
+        code.extend(self.relaxation_local(m))
 
         if self.source_eq:
             code.extend(self.source_term_local(m))
 
-        code.append(self.m2f_local(m, fnew, with_rel_velocity))
+        code.append(self.m2f_local(m, fnew))
         return code
 
     def one_time_step(self):
@@ -601,7 +576,7 @@ class BaseAlgorithm:
             local_vars = []
 
         if self.rel_vel_symb:
-            local_vars.extend(self.rel_vel_symb)
+            local_vars.extend(self.rel_vel_symb + self.relaxation_vars())
 
         f = self._get_indexed_on_velocities("f", space_index, -self.all_velocities)
         fnew = self._get_indexed_on_range("fnew", space_index)
diff --git a/pylbm/algorithm/pull.py b/pylbm/algorithm/pull.py
index ab33a0f..01469db 100644
--- a/pylbm/algorithm/pull.py
+++ b/pylbm/algorithm/pull.py
@@ -35,25 +35,16 @@ class PullAlgorithm(BaseAlgorithm):
             indexed objects for the moments
 
         """
-        with_rel_velocity = True if self.rel_vel_symb else False
-
-        f2m = self.f2m_local(f, m, with_rel_velocity)
-        if isinstance(f2m, list):
-            code = f2m
-        else:
-            code = [f2m]
+        code = [self.f2m_local(f, m)]
 
         if self.source_eq:
             code.extend(self.source_term_local(m))
 
-        code.append(self.relaxation_local(m, with_rel_velocity))
-
-        if with_rel_velocity:
-            code.append(self.restore_conserved_moments(m, f))
+        code.extend(self.relaxation_local(m))
 
         if self.source_eq:
             code.extend(self.source_term_local(m))
 
-        code.append(self.m2f_local(m, fnew, with_rel_velocity))
+        code.append(self.m2f_local(m, fnew))
 
         return code
-- 
2.43.0


From dbbd7fae78e5dfd7f32991331631dc65979edd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:15 +0000
Subject: [PATCH 24/34] fix: wave vectors of the stability analysis in
 dimension 3

---
 pylbm/analysis/stability.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index 237d91a..b314a60 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -87,6 +87,11 @@ class Stability:
             v_xi_x, v_xi_y = np.meshgrid(v_xi_0, v_xi_0)
             v_xi = np.array([v_xi_x.flatten(), v_xi_y.flatten()])
             n_wv = v_xi.shape[1]  # pylint: disable=unsubscriptable-object
+        elif self.dim == 3:
+            n_wv_0 = int(round(n_wv ** (1 / 3)))
+            v_xi_0 = np.linspace(0, 2 * np.pi, n_wv_0, endpoint=False)
+            v_xi = np.array([x.flatten() for x in np.meshgrid(*[v_xi_0] * 3)])
+            n_wv = v_xi.shape[1]  # pylint: disable=unsubscriptable-object
         eigs = np.empty((n_wv, self.nvtot), dtype="complex")
         test_cohn_schur = np.empty((n_wv, 2), dtype=bool)
 
@@ -163,9 +168,9 @@ class Stability:
         nx = v_xi.shape[1]
 
         fig = viewer_app.Fig(nrows=1, ncols=2, figsize=(12.8, 6.4))  # , figsize=(12, 6))
-        if self.dim == 1:
+        if self.dim != 2:
             color = "orange"
-        elif self.dim == 2:
+        else:
             color = 0.5 + 0.5 / np.pi * np.arctan2(v_xi[0, :], v_xi[1, :])
             color = np.repeat(color[np.newaxis, :], self.nvtot, axis=0).flatten()
 
-- 
2.43.0


From 838fd779696fc6cd51d48e448282855bde63d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:15 +0000
Subject: [PATCH 25/34] fix: linearization of the relaxation in the moving
 frame

---
 pylbm/analysis/stability.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index b314a60..8ef6e6a 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -47,18 +47,19 @@ class Stability:
         self.is_stable_l2 = True
         self.verbose = verbose
 
+        # linearization of m -> s * (eq(m) - m)
+        increment_m = -sp.eye(self.nvtot)
+        increment_m[:, : len(self.consm)] += scheme.EQ.jacobian(self.consm)
         if scheme.rel_vel is None:
-            jacobian = scheme.EQ.jacobian(self.consm)
+            increment_m = sp.diag(*scheme.s) * increment_m
         else:
-            jacobian = (scheme.Tu * scheme.EQ).jacobian(self.consm)
-        relax_mat_m = sp.eye(self.nvtot) - sp.diag(*scheme.s)
-        relax_mat_m[:, : len(self.consm)] += sp.diag(*scheme.s) * jacobian
-
-        if scheme.rel_vel is not None:
-            relax_mat_m = scheme.Tmu * relax_mat_m * scheme.Tu
-            relax_mat_m = relax_mat_m.subs(
+            # in the moving frame, only the moments which are not conserved relax
+            s = [0] * len(self.consm) + list(scheme.s[len(self.consm) :])
+            increment_m = scheme.Tmu * sp.diag(*s) * scheme.Tu * increment_m
+            increment_m = increment_m.subs(
                 [(i, j) for i, j in zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel)]
             )
+        relax_mat_m = sp.eye(self.nvtot) + increment_m
         self.relax_mat_f = scheme.invM * relax_mat_m * scheme.M
         # alltogether(self.relax_mat_f)
 
-- 
2.43.0


From 242b6fc4c3eaa6a1259a5913d35e68301778368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:32 +0000
Subject: [PATCH 26/34] fix: dictionaries with empty lists are valid

---
 pylbm/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/validator.py b/pylbm/validator.py
index 4cf2b2e..de8f607 100644
--- a/pylbm/validator.py
+++ b/pylbm/validator.py
@@ -155,7 +155,7 @@ def rec_dict(dico, errors, indent=0):
         s += prompt(indent)
         s += "%s: " % key
         indent += 4
-        if isinstance(value, list) and isinstance(value[0], dict):
+        if isinstance(value, list) and value and isinstance(value[0], dict):
             s += "\n"
             s += rec_list(value, new_errors, indent)
         elif isinstance(value, dict):
-- 
2.43.0


From e84accd5119fd5f8a491eec7f4abfa2c4318c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:32 +0000
Subject: [PATCH 27/34] fix: refuse boxes without their first intervals

---
 pylbm/validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pylbm/validator.py b/pylbm/validator.py
index de8f607..33a49c3 100644
--- a/pylbm/validator.py
+++ b/pylbm/validator.py
@@ -261,7 +261,8 @@ def validate(dico, name):
                           'schema': {'x': {'type': 'list',
                                            'items': [{'type': 'number'},
                                                      {'type': 'number'}
-                                                    ]
+                                                    ],
+                                           'required': True
                                           },
                                      'y': {'type': 'list',
                                            'items': [{'type': 'number'},
@@ -271,7 +272,8 @@ def validate(dico, name):
                                      'z': {'type': 'list',
                                            'items': [{'type': 'number'},
                                                      {'type': 'number'}
-                                                    ]
+                                                    ],
+                                           'dependencies': 'y'
                                           },
                                      'label': {'anyof': [{'type': 'integer'},
                                                          {'type' : 'list',
-- 
2.43.0


From 95e5f3fc9bcb6cc46df478aa085fe8cd8193dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:32 +0000
Subject: [PATCH 28/34] fix: refuse boundary conditions without method and code
 options without directory

---
 pylbm/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylbm/validator.py b/pylbm/validator.py
index 33a49c3..28efaa2 100644
--- a/pylbm/validator.py
+++ b/pylbm/validator.py
@@ -239,6 +239,7 @@ def validate(dico, name):
             "type": "dict",
             "keysrules": {"type": "integer"},
             "valuesrules": {"isboundary": True},
+            "required": True,
         },
         "value": {
             "anyof": [
@@ -321,7 +322,7 @@ def validate(dico, name):
                             },
                   'boundary_conditions': {'type': 'dict',
                                           'keysrules': {'type': 'integer'},
-                                          'valuesrules': {'schema': boundary},
+                                          'valuesrules': {'type': 'dict', 'schema': boundary},
                                          },
                   'relative_velocity': {'type': 'list',
                                         'schema': {'anyof_type': ['number', 'expr']}
@@ -330,7 +331,7 @@ def validate(dico, name):
                                 'allowed':['numpy', 'cython', 'loopy']
                                },
                   'codegen_option':{'type': 'dict',
-                                    'schema': {'directory': {'type': 'string'},
+                                    'schema': {'directory': {'type': 'string', 'required': True},
                                                'generate': {'type': 'boolean'}
                                               },
                                    },
-- 
2.43.0


From ee05a78633ff5133f04b41149481683d79f48e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:33 +0000
Subject: [PATCH 29/34] fix: accept the symbols of time and space in the
 parameters

---
 pylbm/validator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylbm/validator.py b/pylbm/validator.py
index 28efaa2..069a5b2 100644
--- a/pylbm/validator.py
+++ b/pylbm/validator.py
@@ -302,7 +302,10 @@ def validate(dico, name):
                               'required': name in ['Domain', 'Scheme', 'Simulation', 'Stencil']
                              },
                   'parameters': {'type': 'dict',
-                                 'keysrules': {'type': 'symbol'},
+                                 'keysrules': {'anyof': [{'type': 'symbol'},
+                                                         {'type': 'string',
+                                                          'allowed': ['time', 'space_x',
+                                                                      'space_y', 'space_z']}]},
                                  'valuesrules': {'anyof': [{'type': 'expr'},
                                                            {'type': 'number'}]},
                                 },
-- 
2.43.0


From 0e688e24f3d3c50c8b1720bcd9b1fafc4f0ef7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:33 +0000
Subject: [PATCH 30/34] fix: leave the matrix of the moments given by the user
 as it is

---
 pylbm/scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index b852c2d..a4593f2 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -159,7 +159,7 @@ class Scheme:
 
         # TODO: add the possibility to have vectorial schemes when M matrix is defined
         if len(scheme) == 1 and "M" in scheme[0]:
-            self.M = scheme[0]["M"]
+            self.M = sp.Matrix(scheme[0]["M"])  # the rows are permuted
             self.invM = self.M.inv()
             self.Tu = sp.eye(*self.M.shape)
             self.Tmu = sp.eye(*self.M.shape)
-- 
2.43.0


From fe91e4204d1efb01dadfe4b96555cb89932a02c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:33 +0000
Subject: [PATCH 31/34] fix: accept lists as well as tuples as the dictionaries
 do

---
 pylbm/boundary.py   | 4 ++--
 pylbm/geometry.py   | 4 ++--
 pylbm/simulation.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 52a67ec..cd26949 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -280,9 +280,9 @@ class BoundaryMethod:
 
                 args = coords
                 func = value
-                if isinstance(value, tuple):
+                if isinstance(value, (list, tuple)):
                     func = value[0]
-                    args += value[1]
+                    args += tuple(value[1] or ())
 
                 if self.time_bc[key]:
                     func(f, m, 0, *args)
diff --git a/pylbm/geometry.py b/pylbm/geometry.py
index 7069a08..8560c70 100644
--- a/pylbm/geometry.py
+++ b/pylbm/geometry.py
@@ -120,12 +120,12 @@ class Geometry:
         dummylab = dico["box"].get("label", -1)
         if isinstance(dummylab, int):
             self.box_label = [dummylab] * 2 * self.dim
-        elif isinstance(dummylab, list):
+        elif isinstance(dummylab, (list, tuple)):
             if len(dummylab) != 2 * self.dim:
                 err_msg = "The list label of the box has the wrong size "
                 err_msg += "(must be 2*dim)"
                 log.error(err_msg)
-            self.box_label = dummylab
+            self.box_label = list(dummylab)
         else:
             log.error("The labels of the box must be an integer or a list")
 
diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index b48d10b..0d570d4 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -304,9 +304,9 @@ class Simulation:
             return
 
         for k, v in self.init_data.items():
-            if isinstance(v, tuple):
+            if isinstance(v, (list, tuple)):
                 f = v[0]
-                extraargs = v[1] if len(v) == 2 else ()
+                extraargs = tuple(v[1]) if len(v) == 2 else ()
                 fargs = tuple(coords) + extraargs
                 array_to_init[k] = f(*fargs)
             elif isinstance(v, types.FunctionType):
-- 
2.43.0


From 7d12363627e11dddd9aefc5a87f31150bc348b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:45 +0000
Subject: [PATCH 32/34] fix: source terms equal to zero

---
 pylbm/algorithm/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index a717f16..2b129ec 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -480,6 +480,8 @@ class BaseAlgorithm:
                 rhs_m = rhs
             else:
                 rhs_m = parse_expr(rhs, local_dict)
+            if rhs_m == 0:
+                continue
             dummy = euler(lhs_m, rhs_m)
             if indices:
                 rhs_eq[lhs.i] = dummy.rhs.subs(ind_to_subs)
-- 
2.43.0


From ac3e9c19a83480963fb65dc41dd555bd02d78dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:35 +0000
Subject: [PATCH 33/34] fix: source terms which depend on the space and on a
 user defined time

The symbols of the space were replaced by local coordinates which were never
defined by the generated code (NameError), and the symbol given by the key
time of the parameters was not recognized.
---
 pylbm/algorithm/base.py | 57 +++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 2b129ec..316f425 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -123,6 +123,9 @@ class BaseAlgorithm:
                 scheme.consm.keys(), [self.mv[int(i), 0] for i in scheme.consm.values()]
             )
         )
+        # the space and the time can be given by the user in the parameters
+        # (space_x, space_y, space_z and time)
+        subs_coords.append((scheme.symb_t, sp.Symbol("t")))
         to_subs = subs_coords + list(scheme.param.items())
         to_subs_full = to_subs + subs_moments
 
@@ -150,6 +153,7 @@ class BaseAlgorithm:
         self.vmax[: scheme.dim] = scheme.stencil.vmax
         self.local_vars = self.symb_coord_local[: self.dim]
         self.settings = settings if settings else {}
+        self._coords_array = None
 
     def _get_space_idx_full(self):
         """
@@ -260,12 +264,45 @@ class BaseAlgorithm:
         return [Eq(self.rel_vel_symb[i], rel_vel[i]) for i in range(self.dim)]
 
     def coords(self):
-        coord = []
-        for x in self.symb_coord[: self.dim]:
-            coord.append(
-                indexed(x.name, [self.ns, nx, ny, nz], priority=self.sorder[1:])
+        """
+        Return the expressions which define the local coordinates used by
+        the source terms at a point of the inner domain.
+        """
+        used = set().union(
+            *[rhs.free_symbols for _, rhs in self.source_eq if hasattr(rhs, "atoms")]
+        )
+        space_index = self._logical_space_index(self._get_space_idx_inner())
+        return [
+            Eq(
+                coord,
+                indexed(
+                    name,
+                    [nx, ny, nz][: self.dim],
+                    space_index,
+                    priority=self.sorder[1:],
+                ),
             )
-        return [Eq(xx, x) for xx, x in zip(self.symb_coord_local[: self.dim], coord)]
+            for coord, name in zip(self.local_vars, ["X", "Y", "Z"])
+            if coord in used
+        ]
+
+    def _get_coords_array(self, simulation):
+        """
+        Return the arrays of the coordinates (with the halo)
+        with the same storage order as the moments.
+        """
+        if self._coords_array is None:
+            coords = np.meshgrid(*simulation.domain.coords_halo, indexing="ij")
+            axes = np.argsort(self.sorder[1:])
+            self._coords_array = [
+                np.ascontiguousarray(np.transpose(c, axes)) for c in coords
+            ]
+            container = simulation.container
+            if container.gpu_support:
+                self._coords_array = [
+                    container.move2gpu(c) for c in self._coords_array
+                ]
+        return self._coords_array
 
     def transport_local(self, f, fnew):
         """
@@ -491,7 +528,7 @@ class BaseAlgorithm:
         # the sources which use other modified moments are evaluated before
         # the moments are modified
         modified = [i for i, (mm, rhs) in enumerate(zip(m, rhs_eq)) if mm != rhs]
-        code = []
+        code = self.coords()
         for i in modified:
             if any(rhs_eq[i].has(m[j]) for j in modified if j != i):
                 tmp = sp.Symbol("source_%d" % i, real=True)
@@ -515,7 +552,7 @@ class BaseAlgorithm:
         m = self._get_indexed_on_range("m", space_index)
         return {
             "code": For(space_index, self.source_term_local(m)),
-            "local_vars": self.source_term_vars(),
+            "local_vars": self.local_vars + self.source_term_vars(),
         }
 
     def one_time_step_local(self, f, fnew, m):
@@ -656,13 +693,13 @@ class BaseAlgorithm:
 
         dim = len(mm.nspace)
         nx = mm.nspace[0]
-        X = simulation.domain.coords[0]
         if dim > 1:
             ny = mm.nspace[1]
-            Y = simulation.domain.coords[1]
         if dim > 2:
             nz = mm.nspace[2]
-            Z = simulation.domain.coords[1]
+
+        if self.source_eq and self.coords():
+            X, Y, Z = (self._get_coords_array(simulation) + [None] * 2)[:3]
 
         if f_user:
             f = f_user.array
-- 
2.43.0


From ea5e710f516f13b025fe57ee61794431c8d304f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:31 +0000
Subject: [PATCH 34/34] fix: cython kernels without any modified moment

---
 pylbm/generator/printing/cython.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/generator/printing/cython.py b/pylbm/generator/printing/cython.py
index 984005e..0893fb2 100644
--- a/pylbm/generator/printing/cython.py
+++ b/pylbm/generator/printing/cython.py
@@ -303,7 +303,11 @@ class CythonCodePrinter(CodePrinter):
         index = expr.target
         for i in index:
             lines.append("for %s in range(%s, %s):" % (i.label, i.lower, i.upper))
-        for e in expr.body:
+        # an equation whose sides are equal is true: there is nothing to do
+        body = [e for e in expr.body if e != True]  # noqa: E712
+        if not body:
+            return "pass"
+        for e in body:
             temp1, temp2, addlines = self.doprint(e)
             if isinstance(addlines, str):
                 lines.append(addlines)
-- 
2.43.0

