From 8ad72d5f2b47b83fbc3d2615d3e640de9688706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 001/107] fix: recip_cell: use signed volume for left-handed
 cells

With abs(det(cell)) the reciprocal vectors of a left-handed cell had the
wrong sign (a_i . b_j = -2*pi*delta_ij).
---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b035093..60fdeee 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -299,7 +299,8 @@ def recip_cell(cell):
     cell = np.asarray(cell, dtype=float)
     assert_cond(cell.shape == (3,3), "cell must be (3,3) array")
     rcell = np.empty_like(cell)
-    vol = volume_cell(cell)
+    # signed volume: a_i . b_j = 2*pi*delta_ij also for left-handed cells
+    vol = np.linalg.det(cell)
     a = cell[0,:]
     b = cell[1,:]
     c = cell[2,:]
-- 
2.43.0


From ddb2b13c9001c8370fee1f8be9a72bc56fee2ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 002/107] fix: cart2frac: do not overwrite Fortran-ordered cell

dgesv() stores the LU factors in its matrix argument. With transpose(cell)
as actual argument gfortran copies them back to `cell`, which destroyed the
caller's cell when it was passed in Fortran order.
---
 src/_ext_src/flib.f90 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/_ext_src/flib.f90 b/src/_ext_src/flib.f90
index 5d92032..2d0b21b 100644
--- a/src/_ext_src/flib.f90
+++ b/src/_ext_src/flib.f90
@@ -568,11 +568,13 @@ subroutine cart2frac(coords, cell, natoms, coords_frac)
     integer :: natoms, ipiv(3), info
     double precision, intent(in) :: coords(natoms, 3), cell(3,3)
     double precision, intent(out) :: coords_frac(natoms, 3)
-    double precision :: wrk(3,natoms)
+    double precision :: wrk(3,natoms), cell_t(3,3)
 
-    ! solve for all `natoms` RHS at once
+    ! solve for all `natoms` RHS at once, dgesv() overwrites its matrix
+    ! argument, so pass a copy
     wrk = transpose(coords)
-    call dgesv(3, natoms, transpose(cell), 3, ipiv, wrk, 3, info)
+    cell_t = transpose(cell)
+    call dgesv(3, natoms, cell_t, 3, ipiv, wrk, 3, info)
     coords_frac = transpose(wrk)
 end subroutine cart2frac
 
-- 
2.43.0


From df964abfaefdee02b6fb783a727c548af885dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 003/107] fix: solve: do not overwrite Fortran-ordered matrix
 input

---
 src/_ext_src/flib.f90 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_ext_src/flib.f90 b/src/_ext_src/flib.f90
index 2d0b21b..7f92381 100644
--- a/src/_ext_src/flib.f90
+++ b/src/_ext_src/flib.f90
@@ -540,13 +540,16 @@ subroutine solve(aa, bb, nn, xx)
     integer :: nn
     double precision, intent(in) :: aa(nn,nn), bb(nn)
     double precision, intent(out) :: xx(nn)
+    double precision :: wrk(nn,nn)
     integer :: ipiv(nn), info
 
     ! Make a copy of bb b/c that will be overwritten in dgesv(). Not sure if
     ! this is the Fortran way to do it. But the Pyhon wrapper works and doesn't
     ! overwrite `bb`.
     xx(:) = bb(:)
-    call dgesv(nn, 1, aa, nn, ipiv, xx, nn, info)
+    ! Same for aa.
+    wrk(:,:) = aa(:,:)
+    call dgesv(nn, 1, wrk, nn, ipiv, xx, nn, info)
 end subroutine solve
 
 
-- 
2.43.0


From 1f58c8aa9b007e89dd47b1e02d2989367d1b2f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 004/107] fix: coord_trans: don't truncate results for integer
 input

---
 src/pwtools/crys.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 60fdeee..9e87f8b 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -931,7 +931,12 @@ def coord_trans(coords, old=None, new=None, copy=True, axis=-1):
                       "`old` and `new` must be square")
     # arr.T and arr.swapaxes() are no in-place operations, just views, input
     # arrays are not changed, but copy() b/c we can overwrite coords
-    _coords = coords.copy() if copy else coords
+    if copy:
+        # integer arrays can't hold the result
+        _coords = coords.astype(float) if coords.dtype.kind in 'biu' else \
+            coords.copy()
+    else:
+        _coords = coords
     mx_axis = _coords.ndim - 1
     axis = mx_axis if (axis == -1) else axis
     # must use `coords[:] = ...`, just `coords = ...` is a new array
-- 
2.43.0


From 853b0ad5147110d3217c61c4b627467b783e5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 005/107] fix: nearest_neighbors: num + skip of the central
 atom's symbol

The first true neighbor was dropped since the central atom was already
removed by `skip`.
---
 src/pwtools/crys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 9e87f8b..ce5bcd4 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1989,8 +1989,9 @@ def nearest_neighbors_from_dists(dists, symbols, idx=None, skip=None,
     else:
         only_msk = np.ones((len(symbols_sort),), dtype=bool)
     if cutoff is None:
-        # ``1:`` : central atom excluded
-        cut_msk = np.s_[1:num+1]
+        # central atom excluded, also if `skip` contains its symbol
+        only_msk = only_msk & (idx_lst_sort != np.arange(len(dist1d))[idx])
+        cut_msk = np.s_[:num]
         ret_idx = idx_lst_sort[only_msk][cut_msk]
     else:
         cut_msk = (dist1d_sort > 0) & (dist1d_sort < cutoff)
-- 
2.43.0


From 598f827328644f00ced79cf31cc1a6da3d5f246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 006/107] fix: rpdf: don't modify the trajs and amask lists
 passed in

---
 src/pwtools/crys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index ce5bcd4..7ed7e86 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1489,10 +1489,12 @@ def rpdf(trajs, dr=0.05, rmax='auto', amask=None, tmask=None,
     if type(trajs) != type([]):
         trajs = [trajs]
     if len(trajs) == 1:
-        trajs *= 2
+        trajs = trajs*2
         dup_trajs = True
+    # new list b/c items are replaced below
+    amask = list(amask)
     if len(amask) == 1:
-        amask *= 2
+        amask = amask*2
     trajs = list(map(struct2traj, trajs))
     assert len(trajs) == 2, "len(trajs) != 2"
     assert len(amask) == 2, "len(amask) != 2"
-- 
2.43.0


From f495666440d7e575a7eb46217ed851449f491313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 007/107] fix: velocity_traj: don't truncate velocities for
 integer input

---
 src/pwtools/crys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 7ed7e86..ab67647 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -707,12 +707,11 @@ def velocity_traj(arr, dt=1.0, axis=0, endpoints=True):
     # course. Also, one *could* create 3*natoms Spline objects thru coords
     # (splines along time axis) and calc 1st and 2nd deriv from that. But
     # that's probably very slow.
-    if endpoints:
-        vv = np.empty_like(arr)
     # To support general axis stuff, use slice magic ala slicetake/sliceput
     assert axis == 0, ("only axis==0 implemented ATM")
     tmp = (arr[2:,...] - arr[:-2,...]) / 2.0 / dt
     if endpoints:
+        vv = np.empty(arr.shape, dtype=tmp.dtype)
         vv[1:-1,...] = tmp
         vv[0,...] = tmp[0,...]
         vv[-1,...] = tmp[-1,...]
-- 
2.43.0


From 8b313a501029eb44094a5ce22eab9e2de51cc1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 008/107] fix: Trajectory: no velocity instead of IndexError
 for less than 3 steps

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index ab67647..3e08c46 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2540,7 +2540,9 @@ class Structure(UnitsHandler):
         if self.is_struct:
             raise NotImplementedError("only in Trajectory")
         if not self.is_set_attr('velocity'):
-            if self.check_set_attr_lst(['coords', 'timestep']):
+            # central differences need at least 3 steps
+            if self.check_set_attr_lst(['coords', 'timestep']) and \
+               self.coords.shape[self.timeaxis] > 2:
                 return velocity_traj(self.coords, dt=self.timestep, axis=0,
                                      endpoints=True)
             else:
-- 
2.43.0


From 3f684fef2b62664a2a5e0f554043d4df4107cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 009/107] fix: Trajectory: nested and interrupted iteration

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 3e08c46..1f0c73f 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2943,7 +2943,9 @@ class Trajectory(Structure):
         super(Trajectory, self).__init__(*args, **kwds)
 
     def __iter__(self):
-        return self
+        # independent iterator, for nested or interrupted loops
+        for ii in range(self.nstep):
+            yield self[ii]
 
     def __getitem__(self, idx):
         want_traj = False
-- 
2.43.0


From ba7bb815c71335311db21b96c33affe897b9d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 010/107] fix: concatenate: don't keep time-dependent data of
 the first item only

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 1f0c73f..45ed6d7 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3100,7 +3100,7 @@ def concatenate(lst):
                               axis=0)
         setattr(traj, name, attr)
     attrs_traj = traj.attrs_nstep + traj.attrs_only_traj
-    for name in set.symmetric_difference(com_attrs, set(attrs_traj)):
+    for name in set.difference(com_attrs, set(attrs_traj)):
         setattr(traj, name, getattr(trlst[0], name))
     traj.timestep = None
     traj.time = None
-- 
2.43.0


From a7ad151ba777c2dab3d300e05c8a0a7b566749e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 011/107] fix: smooth: don't truncate integer trajectory data

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 45ed6d7..f280f7f 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3207,11 +3207,11 @@ def smooth(traj, kern, method=1):
                 if attr.ndim == 1:
                     tmp = signal.smooth(attr, kern, axis=traj.timeaxis)
                 elif attr.ndim == 2:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape, dtype=np.result_type(attr, 1.0))
                     for jj in range(attr.shape[1]):
                         tmp[:,jj] = signal.smooth(attr[:,jj], kern)
                 elif attr.ndim == 3:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape, dtype=np.result_type(attr, 1.0))
                     for jj in range(attr.shape[1]):
                         for kk in range(attr.shape[2]):
                             tmp[:,jj,kk] = signal.smooth(attr[:,jj,kk], kern)
-- 
2.43.0


From abc337479e22182db1c624b95e5304f8b7b013f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 012/107] fix: mix: accept any sequence for alpha, as
 documented

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index f280f7f..4b22f26 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3267,7 +3267,7 @@ def mix(st1, st2, alpha):
     assert st1.symbols == st2.symbols
     coords = np.empty_like(st1.coords)
     cell = np.empty_like(st1.cell)
-    rr = alpha[:,None,None]
+    rr = np.asarray(alpha)[:,None,None]
     coords = rr * st2.coords[None,:,:] + (1.0 - rr) * st1.coords[None,:,:]
     cell = rr * st2.cell[None,:,:] + (1.0 - rr) * st1.cell[None,:,:]
     if (st1.forces is not None) and (st2.forces is not None):
-- 
2.43.0


From a2548a24dde0f8e7e2f8b3f991946eae7f131519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 013/107] fix: Structure.copy: keep units which are not applied
 yet

---
 src/pwtools/crys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 4b22f26..ec7c66d 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2531,6 +2531,8 @@ class Structure(UnitsHandler):
                 setattr(obj, name, val.copy())
             else:
                 setattr(obj, name, copy.deepcopy(val))
+        obj.units = self.units.copy()
+        obj.units_applied = self.units_applied
         return obj
 
     def get_velocity(self):
-- 
2.43.0


From 425f2500b0041fc7141b0205ad6d3f991fb8c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 014/107] fix: Trajectory: one-step cell or cryst_const without
 coords

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index ec7c66d..cb47b4b 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2479,7 +2479,7 @@ class Structure(UnitsHandler):
             return cell
         if cell.shape == (3,3):
             return self._extend_array(cell)
-        elif cell.shape == (1,3,3):
+        elif cell.shape == (1,3,3) and self.check_set_attr('nstep'):
             return self._extend_array(cell[0,...])
         else:
             return cell
@@ -2489,7 +2489,7 @@ class Structure(UnitsHandler):
             return cc
         if cc.shape == (6,):
             return self._extend_array(cc)
-        elif cc.shape == (1,6):
+        elif cc.shape == (1,6) and self.check_set_attr('nstep'):
             return self._extend_array(cc[0,...])
         else:
             return cc
-- 
2.43.0


From 64a9a2c70fe26ec1f1fa8c2656db6e0e4909bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 015/107] fix: mean: set_all() of the result works without
 velocity data

---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index cb47b4b..a26400e 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3141,7 +3141,8 @@ def mean(traj):
     attrs_only_traj = ['time', 'timestep', 'nstep']
     extra = list(set.difference(set(traj.attrs_only_traj),
                                 set(attrs_only_traj)))
-    struct.attr_lst += extra
+    # Structure has no getters for them, so st.set_all() needs them to be set
+    struct.attr_lst += [name for name in extra if traj.is_set_attr(name)]
     for attr_name in set.difference(set(traj.attrs_nstep),
                                     set(attrs_only_traj)):
         attr = getattr(traj, attr_name)
-- 
2.43.0


From 990d832e85a21ec77da6c9142e68fb3c09355721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 016/107] fix: fit_opt: don't remove options from the caller's
 opt_kwds

---
 src/pwtools/rbf/hyperopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index d7dc38b..1e1d9f3 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -218,6 +218,8 @@ def fit_opt(
         points, values, cv=cv, cv_kwds=cv_kwds, rbf_kwds=rbf_kwds
     )
     _get_p0 = lambda: estimate_p(points)
+    # we pop items below
+    opt_kwds = dict(opt_kwds)
     disp = opt_kwds.pop("disp", False)
     if method == "fmin":
         if what == "p":
-- 
2.43.0


From e7f9a619328839caa2986db0ef4b340e79a7b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 017/107] fix: Calculation: don't append the machine template
 to the caller's list

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 627a315..f007bfb 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -299,7 +299,7 @@ class Calculation:
             'calc_foo/0/')
         """
         self.machine = machine
-        self.templates = templates
+        self.templates = list(templates)
         self.params = params
         self.calc_dir = calc_dir
         self.sql_record = dict((sqlentry.key, sqlentry) \
-- 
2.43.0


From 3925c6c278ca498e56717ac96e0a9ede7eea5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 018/107] fix: FileTemplate.write: keys=[] copies the file as
 documented

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index f007bfb..47ec13b 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -227,7 +227,7 @@ class FileTemplate:
         tgt = pj(calc_dir, self.basename)
         verbose("write: %s" %tgt)
         if copy_only:
-            verbose("write: ignoring input, just copying file to %s"
+            verbose("write: ignoring input, just copying file %s to %s"
                     %(self.filename, tgt))
             shutil.copy(self.filename, tgt)
         else:
-- 
2.43.0


From 311aa28d867975efd1ea1a27661eb93979f12050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 019/107] fix: fit_opt: one-parameter brute without polishing

---
 src/pwtools/rbf/hyperopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index 1e1d9f3..acfb007 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -243,6 +243,8 @@ def fit_opt(
             xopt = optimize.brute(
                 fit_err, ranges=bounds, disp=disp, **opt_kwds
             )
+    # brute(finish=None) with one parameter returns a scalar
+    xopt = np.atleast_1d(xopt)
     rbf_kwds_opt = copy.copy(rbf_kwds)
     for idx, symbol in enumerate(what_lst):
         rbf_kwds_opt[symbol] = xopt[idx]
-- 
2.43.0


From c0cd4c3792335f6789d3075482c0034c73744dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 020/107] fix: CifFile: select the data block by name

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 84d7fb3..b1c8e3a 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -385,7 +385,7 @@ class CifFile(StructureFileParser):
         if self.block is None:
             cif_block = cf.first_block()
         else:
-            cif_block = cf['data_' + self.block]
+            cif_block = cf[self.block]
         return cif_block
 
     def get_coords_frac(self):
-- 
2.43.0


From 9c231f3b7ea635c7b097aa57256148b0d8984874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 021/107] fix: PDBFile: cryst_const is None without CRYST1
 record, as documented

---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index b1c8e3a..78e535d 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -532,6 +532,8 @@ class PDBFile(StructureFileParser):
         #          a        b        c       alpha  beta   gamma  |space grp|  z-value
         pat = r'CRYST1\s+((\s+' + regex.float_re + r'){6}).*'
         match = re.search(pat, self.txt)
+        if match is None:
+            return None
         return np.array(match.group(1).split()).astype(float)
 
 
-- 
2.43.0


From d756f7ece0f935a718e42843cd24981750a0b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 022/107] fix: kpoints_str_pwin: accept any sequence

---
 src/pwtools/pwscf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index efa3dad..4e82793 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -130,7 +130,7 @@ def kpoints_str_pwin(lst, shift=[0,0,0]):
     lst : sequence (3,)
     shift : sequence (3,), optional
     """
-    return ' '.join(map(str, lst+shift))
+    return ' '.join(map(str, list(lst) + list(shift)))
 kpointstr_pwin = kpoints_str_pwin
 
 
-- 
2.43.0


From 04b8ba30e6e1bc07a12a2ef6d909457824509a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 023/107] fix: readtxt: keep the shape of arrays with a single
 row, column or value

---
 src/pwtools/arrayio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index e30faf2..9892e61 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -193,6 +193,8 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
         return np.array([])
     else:
         fh.seek(0)
+        # don't squeeze single rows, columns and values
+        kwargs.setdefault('ndmin', min(ndim, 2))
         read_arr = np.loadtxt(fh, **kwargs)
 
     # 1d and 2d
-- 
2.43.0


From 2b94ec722932c5380ccc3c3524dace6fd661996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 024/107] fix: cell2cc: result does not depend on the alignment
 of the cell in memory

---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index a26400e..3086b8e 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -159,7 +159,8 @@ def cell2cc(cell):
     %(cryst_const_doc)s,
         unit: [a]**3
     """
-    cell = np.asarray(cell)
+    # copy: rounding in np.dot() depends on the alignment of views in memory
+    cell = np.array(cell, order='C')
     assert_cond(cell.shape == (3,3), "cell must be (3,3) array")
     cryst_const = np.empty((6,), dtype=float)
     # a = |a|, b = |b|, c = |c|
-- 
2.43.0


From f1daa71a8a9474bc70e9e45973db860ef39cfa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 025/107] fix: PwMDOutputFile: coords of ATOMIC_POSITIONS
 without unit are bohr, not missing

---
 src/pwtools/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 78e535d..3832692 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1029,7 +1029,9 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def get_coords(self):
         """Cartesian coords [Bohr]. If coords_unit='alat', then [Bohr] if
         self.alat in [Bohr]."""
-        if self.check_set_attr_lst(['_coords', 'coords_unit', 'alat']):
+        # coords_unit is None if the header has no unit
+        self.try_set_attr('coords_unit')
+        if self.check_set_attr_lst(['_coords', 'alat']):
             if self.coords_unit in ['bohr', None]:
                 return self._coords
             elif self.coords_unit == 'alat':
-- 
2.43.0


From fba2824acd9ce88c885484ccd723669555ca4696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 026/107] fix: PwMDOutputFile: missing forces are None instead
 of an error

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 3832692..66fb569 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1128,7 +1128,7 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
         """[Ry / Bohr] """
         if self.check_set_attr('natoms'):
             forces = self._match_nstep(self.raw_return('forces'))
-            return forces[:,:self.natoms,:]
+            return None if forces is None else forces[:,:self.natoms,:]
         else:
             return None
 
-- 
2.43.0


From e56e08a88adb46abb92b6c95be01dd964e883d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 027/107] fix: PwVCMDOutputFile: missing Ekin/T/Etot data is
 None instead of an error

---
 src/pwtools/parse.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 66fb569..975f0d2 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1157,18 +1157,24 @@ class PwVCMDOutputFile(PwMDOutputFile):
 
     def get_ekin(self):
         verbose("getting ekin")
-        self.try_set_attr('_datadct')
-        return self._datadct['ekin']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['ekin']
+        else:
+            return None
 
     def get_econst(self):
         verbose("getting econst")
-        self.try_set_attr('_datadct')
-        return self._datadct['econst']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['econst']
+        else:
+            return None
 
     def get_temperature(self):
         verbose("getting temperature")
-        self.try_set_attr('_datadct')
-        return self._datadct['temperature']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['temperature']
+        else:
+            return None
 
 
 class CpmdSCFOutputFile(StructureFileParser):
-- 
2.43.0


From 6d0da3855d67329eaa03bdef3b209e2acc1ebc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 028/107] fix: PwSCFOutputFile: missing start coords or natoms
 are None instead of an error

---
 src/pwtools/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 975f0d2..69fc280 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -730,7 +730,8 @@ class PwSCFOutputFile(StructureFileParser):
         precision.
         """
         verbose("getting start coords")
-        self.try_set_attr('natoms')
+        if not self.check_set_attr('natoms'):
+            return None
         natoms = self.natoms
         # coords
         cmd = r"egrep -m1 -A%i 'site.*atom.*positions.*units.*\)' %s | tail -n%i | \
@@ -741,6 +742,8 @@ class PwSCFOutputFile(StructureFileParser):
               %s '{print $2}'" \
               %(natoms, self.filename, natoms, AWK)
         symbols = com.backtick(cmd).strip().split()
+        if coords is None:
+            return None
         return {'coords': coords, 'symbols': symbols}
 
     def _get_cell_2d(self):
-- 
2.43.0


From 3949659aadf3315155f2a41d81d14deb88f78090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 029/107] fix: PwMDOutputFile: the starting temperature is not
 a time step

---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 69fc280..f993d52 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1108,7 +1108,8 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def get_temperature(self):
         """Temperature [K]"""
         verbose("getting temperature")
-        cmd = r"egrep 'temperature[ ]*=' %s " %self.filename + \
+        # not "Starting temperature = ...", which is not a time step
+        cmd = r"egrep '^[ ]*temperature[ ]*=' %s " %self.filename + \
               r"| sed -re 's/.*temp.*=\s*(" + regex.float_re + \
               r")\s*K/\1/'"
         return arr1d_from_txt(com.backtick(cmd))
-- 
2.43.0


From dba68098b93cf5178768b253020ef850574e12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 030/107] fix: parsers: MD parser classes no longer change the
 default units of other parsers

---
 src/pwtools/parse.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index f993d52..b657c71 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -881,7 +881,9 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def __init__(self, filename=None, use_alat=True, **kwds):
         # update default_units *before* calling base class' __init__, where
         # self.units is assembled from default_units
-        self.default_units.update({'time': constants.tryd / constants.fs})
+        # new dict: default_units is shared by all parser classes and instances
+        self.default_units = dict(self.default_units,
+                                  time=constants.tryd / constants.fs)
         TrajectoryFileParser.__init__(self, filename=filename, **kwds)
         self.attr_lst = [\
             'coords',
@@ -1481,9 +1483,10 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         ----------
         filename : file to parse
         """
-        self.default_units.update(\
-            {'time': constants.thart / constants.fs, # thart -> fs
-             'velocity': Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
+        # new dict: default_units is shared by all parser classes and instances
+        self.default_units = dict(self.default_units,
+            **{'time': constants.thart / constants.fs, # thart -> fs
+               'velocity': Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
             })
         TrajectoryFileParser.__init__(self, *args, **kwds)
         self.attr_lst = [\
@@ -1836,6 +1839,8 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
     md,print_level low".
     """
     def __init__(self, *args, **kwds):
+        # new dict: default_units is shared by all parser classes and instances
+        self.default_units = dict(self.default_units)
         self.default_units['stress'] = 1e-4 # bar -> GPa
         self.default_units['velocity'] = Bohr/thart / Ang*fs # Bohr/thart -> Ang/fs
         TrajectoryFileParser.__init__(self, *args, **kwds)
@@ -2224,6 +2229,8 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             where lammps echos the input script. `symbols` is build from the
             ``type`` column in `dumpfilename`.
         """
+        # new dict: default_units is shared by all parser classes and instances
+        self.default_units = dict(self.default_units)
         self.default_units['stress'] = 1e-4     # bar -> GPa
         self.default_units['velocity'] = fs/ps  # Ang/ps -> Ang/fs
         self.default_units['time'] = ps/fs      # ps -> fs
-- 
2.43.0


From 558d3d72e4e7b3ffe995d06e99a2e4d9702f49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 031/107] fix: parsers: get_struct()/get_traj() return a new
 object with units applied in each call

---
 src/pwtools/parse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index b657c71..7af4a46 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -105,6 +105,7 @@ Con:
   "empty" file.
 """
 
+import copy
 import re, sys, os
 from math import acos, pi, sin, cos, sqrt
 
@@ -292,8 +293,12 @@ class StructureFileParser(UnitsHandler):
         """
         if not self.parse_called:
             self.parse()
+        # New container with its own data in each call, units are applied only
+        # once per container.
+        self.cont = self.Container(set_all_auto=False, units=self.units)
         for attr_name in self.cont.attr_lst:
-            setattr(self.cont, attr_name, getattr(self, attr_name))
+            setattr(self.cont, attr_name,
+                    copy.deepcopy(getattr(self, attr_name)))
         if auto_calc:
             self.cont.set_all()
         else:
-- 
2.43.0


From 0fc88c6989e38457a283ff10afc74e272cc83177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 032/107] fix: lammps parser: read thermo output with indented
 header (new lammps versions)

---
 src/pwtools/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 7af4a46..e16b103 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2299,11 +2299,12 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
         still prints a line starting with "Step ...".
         """
         if os.path.exists(self.filename):
-            header = com.backtick("grep -m1 Step %s" %self.filename).split()
+            # newer lammps versions indent the header line
+            header = com.backtick("egrep -m1 '^[ ]*Step' %s" %self.filename).split()
             # Strip all text except for the data columns. Also works for
             # multiple ``run`` or ``minimize`` commands in one input file,
             # which cause wildly mixed text.
-            cmd = r"sed -nre '/^Step/,/^Loop/p' %s | \
+            cmd = r"sed -nre '/^[ ]*Step/,/^Loop/p' %s | \
                     egrep -v 'Step|Loop'" %self.filename
             arr = arr2d_from_txt(com.backtick(cmd))
             return dict((x, arr[:,ii]) for ii,x in enumerate(header))
-- 
2.43.0


From 155dee24500073e3fe507a8d696883cc57368170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 033/107] fix: lammps parser: read orthogonal boxes

---
 src/pwtools/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index e16b103..e6eb128 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2463,7 +2463,10 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             nstep = nstep_from_txt(com.backtick(cmd))
             cmd = r"grep -A3 'ITEM: BOX BOUNDS' %s | \
                     egrep -ve '--|ITEM'" %self.dumpfilename
-            arr = np.fromstring(com.backtick(cmd), sep=' ').reshape((nstep,3,3))
+            arr = np.fromstring(com.backtick(cmd), sep=' ').reshape((nstep,3,-1))
+            if arr.shape[-1] == 2:
+                # orthogonal box, no tilt factors
+                arr = np.concatenate((arr, np.zeros((nstep,3,1))), axis=-1)
             cell = np.zeros_like(arr)
             for ii in range(nstep):
                 xlo_bound = arr[ii,0,0]
-- 
2.43.0


From 41a6cf54bfa0a63db74191686f1568dca52b5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 034/107] fix: lammps parser: atoms are ordered by id in each
 time step

---
 src/pwtools/parse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index e6eb128..8b24edc 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2323,6 +2323,13 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             arr = np.fromstring(com.backtick(cmd),
                                 sep=' ').reshape(nstep*self.natoms,len(header))
             self._assert_shape_mod('dump', arr.shape[0], self.natoms)
+            if 'id' in header:
+                # The atom order may change between time steps if dump_modify
+                # sort was not used.
+                arr = arr.reshape(nstep, self.natoms, len(header))
+                order = np.argsort(arr[...,header.index('id')], axis=1)
+                arr = np.take_along_axis(arr, order[...,None], axis=1)
+                arr = arr.reshape(nstep*self.natoms, len(header))
             return dict((x, arr[:,ii]) for ii,x in enumerate(header))
         else:
             return None
-- 
2.43.0


From 631895e5e99f23b5c7b1a08d31fe4a5a3fa592cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 035/107] fix: cp2k, cpmd parsers: read runs with only one time
 step

---
 src/pwtools/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 8b24edc..1e08613 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1546,7 +1546,7 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         verbose("getting _energies_file")
         fn = os.path.join(self.basedir, 'ENERGIES')
         if os.path.exists(fn):
-            arr = np.loadtxt(fn)
+            arr = np.atleast_2d(np.loadtxt(fn))
             ncols = arr.shape[-1]
             if ncols not in list(self._energies_order.keys()):
                 raise Exception("only %s columns supported in "
@@ -1898,19 +1898,19 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
 
     def _get_cell_file_arr(self):
         if os.path.exists(self._cell_file):
-            return np.loadtxt(self._cell_file)
+            return np.atleast_2d(np.loadtxt(self._cell_file))
         else:
             return None
 
     def _get_ener_file_arr(self):
         if os.path.exists(self._ener_file):
-            return np.loadtxt(self._ener_file)
+            return np.atleast_2d(np.loadtxt(self._ener_file))
         else:
             return None
 
     def _get_stress_file_arr(self):
         if os.path.exists(self._stress_file):
-            return np.loadtxt(self._stress_file)
+            return np.atleast_2d(np.loadtxt(self._stress_file))
         else:
             return None
 
-- 
2.43.0


From bf78a11bfb6183be07f5182ecc4e0c09f7baadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 036/107] fix: cp2k, cpmd, lammps parsers: missing data is None
 instead of an error

---
 src/pwtools/parse.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 1e08613..d706089 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1269,10 +1269,9 @@ class CpmdSCFOutputFile(StructureFileParser):
     def _get_scale_file(self):
         """Read GEOMETRY.scale file with fractional coords."""
         fn = os.path.join(self.basedir, 'GEOMETRY.scale')
-        if os.path.exists(fn):
+        if os.path.exists(fn) and self.check_set_attr('natoms'):
             cmd = "grep -A3 'CELL MATRIX (BOHR)' %s | tail -n3" %fn
             cell = arr2d_from_txt(com.backtick(cmd))
-            self.assert_set_attr('natoms')
             cmd = "grep -A%i 'SCALED ATOMIC COORDINATES' %s | tail -n%i" \
                   %(self.natoms, fn, self.natoms)
             arr = arr2d_from_txt(com.backtick(cmd), dtype=str)
@@ -1573,7 +1572,8 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         #        thart = Hartree time =  0.024189 fs
         # FTRAJECTORY extra:
         #   7-9: x,y,z cartesian forces [Ha / Bohr]
-        self.assert_set_attr('natoms')
+        if not self.check_set_attr('natoms'):
+            return None
         have_file = False
         have_forces = False
         fn_tr = os.path.join(self.basedir, 'TRAJECTORY')
@@ -1835,6 +1835,8 @@ class Cp2kSCFOutputFile(StructureFileParser):
         cmd = r"grep -A5 'STRESS TENSOR.*GPa' %s | egrep -v 'X[ ]+Y[ ]+Z' | \
             egrep '^[ ]+(X|Y|Z)'" %self.filename
         ret = com.backtick(cmd).strip()
+        if ret == '':
+            return None
         arr = np.array([x.split() for x in ret.splitlines()])
         return arr[:,1:].astype(float)
 
@@ -2307,6 +2309,8 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             cmd = r"sed -nre '/^[ ]*Step/,/^Loop/p' %s | \
                     egrep -v 'Step|Loop'" %self.filename
             arr = arr2d_from_txt(com.backtick(cmd))
+            if arr is None:
+                return None
             return dict((x, arr[:,ii]) for ii,x in enumerate(header))
         else:
             return None
-- 
2.43.0


From ca58b868d91be47e7aa01119b542ce9a3e06b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 037/107] fix: read phonon mode files written by QE >= 5.1
 (freq instead of omega)

---
 src/pwtools/pwscf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index 4e82793..fd54b93 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -223,7 +223,7 @@ def read_matdyn_modes(filename, natoms=None):
        **************************************************************************
     """
     assert natoms is not None
-    cmd = r"grep 'q.*=' %s | sed -re 's/.*q\s*=(.*)/\1/'" %filename
+    cmd = r"grep '^\s*q\s*=' %s | sed -re 's/.*q\s*=(.*)/\1/'" %filename
     qpoints = parse.arr2d_from_txt(common.backtick(cmd))
     nqpoints = qpoints.shape[0]
     nmodes = 3*natoms
@@ -236,8 +236,9 @@ def read_matdyn_modes(filename, natoms=None):
     vecs_flat[:,1] = vecs_file_flat[:,2] + 1j*vecs_file_flat[:,3]
     vecs_flat[:,2] = vecs_file_flat[:,4] + 1j*vecs_file_flat[:,5]
     vecs = vecs_flat.flatten().reshape(nqpoints, nmodes, natoms, 3)
-    cmd = r"grep omega %s | sed -re \
-            's/.*omega.*=.*\[.*=(.*)\s*\[.*/\1/g'" %filename
+    # "omega( 1) = ...", QE >= 5.1: "freq (    1) = ..."
+    cmd = r"egrep '(omega|freq) *\(' %s | sed -re \
+            's/.*(omega|freq).*=.*\[.*=(.*)\s*\[.*/\2/g'" %filename
     freqs = np.fromstring(common.backtick(cmd), sep=' ').reshape((nqpoints, nmodes))
     return qpoints, freqs, vecs
 
@@ -279,8 +280,9 @@ def read_dyn(filename, natoms=None):
     vecs_flat[:,1] = vecs_file_flat[:,2] + 1j*vecs_file_flat[:,3]
     vecs_flat[:,2] = vecs_file_flat[:,4] + 1j*vecs_file_flat[:,5]
     vecs = vecs_flat.flatten().reshape(nmodes, natoms, 3)
-    cmd = r"grep omega %s | sed -re \
-            's/.*omega.*=.*\[.*=(.*)\s*\[.*/\1/g'" %filename
+    # "omega( 1) = ...", QE >= 5.1: "freq (    1) = ..."
+    cmd = r"egrep '(omega|freq) *\(' %s | sed -re \
+            's/.*(omega|freq).*=.*\[.*=(.*)\s*\[.*/\2/g'" %filename
     freqs = np.fromstring(common.backtick(cmd), sep=' ')
     return qpoints, freqs, vecs
 
-- 
2.43.0


From c64279a82789296e87034bc2ea07c1fbe8b14d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 038/107] fix: read_matdyn_freq no longer returns uninitialised
 rows for short files

---
 src/pwtools/pwscf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index fd54b93..903dbbd 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -523,7 +523,8 @@ def read_matdyn_freq(filename):
     # nasty trick: join all lines containing data into one 1d array: " ".join()
     # does "1 2\n3 4" -> "1 2\n 3 4" and split() splits at \n + whitespace.
     items = np.array(' '.join(lines[1:]).split(), dtype=float)
-    for ii in range(len(items) // step):
+    assert len(items) == nks * step, "%s: incomplete file" %filename
+    for ii in range(nks):
         kpoints[ii,:] = items[ii*step:(ii*step+3)]
         freqs[ii,:] = items[(ii*step+3):(ii*step+step)]
     return kpoints, freqs
-- 
2.43.0


From 9eb4cf5b7f1735aa1f2f0f049ea2d56ca436035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 039/107] fix: toslice, tobool, ffloat: accept strings

---
 src/pwtools/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index b51c19a..e33cdae 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -88,7 +88,7 @@ def toslice(val):
     >>> toslice('1:5')
     slice(1, 5, None)
     """
-    assert_cond(isinstance(val, bytes), "input must be string")
+    assert_cond(isinstance(val, str), "input must be string")
     # XXX This is fixed in numpy 1.5.1:
     #   https://github.com/numpy/numpy/commit/9089036b
     # np.s_ doesn't work for slices starting at end, like
@@ -132,7 +132,7 @@ def tobool(val):
             return False
     got_str = False
     got_int = False
-    if isinstance(val, bytes):
+    if isinstance(val, str):
         got_str = True
         val = val.lower()
     elif isinstance(val, int):
@@ -167,7 +167,7 @@ def ffloat(st):
     -------
     float
     """
-    assert_cond(isinstance(st, bytes), "`st` must be string")
+    assert_cond(isinstance(st, str), "`st` must be string")
     st = st.lower()
     if not 'd' in st:
         return float(st)
-- 
2.43.0


From 0790c3487ac5cb1e0bb3cc8793caf7904eb6037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 040/107] fix: template_replace: result does not depend on the
 order of placeholders in txt mode

---
 src/pwtools/common.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index e33cdae..fea1482 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -444,10 +444,9 @@ def template_replace(txt, dct, conv=False, warn_mult_found=True,
     else:
         raise Exception("mode must be 'txt' or 'dct'")
 
-    # This is a copy. Each txt.replace() returns an additional copy. We need
-    # that if we loop over dct.iteritems() and sucessively replace averything.
-    if is_txt_mode:
-        new_txt = txt
+    # Collect replacement rules and apply them all at once, such that the result
+    # doesn't depend on the order of keys.
+    rules = {}
     for key, val in dct.items():
         if is_dct_mode:
             # The key is '%(foo)s', but searching for '%(foo)' must suffice,
@@ -470,7 +469,7 @@ def template_replace(txt, dct, conv=False, warn_mult_found=True,
                     print("template_replace: warning: key '%s' found %i times"
                     %(tst_key, cnt))
             if is_txt_mode:
-                new_txt = new_txt.replace(key, val)
+                rules[key] = val
             if disp:
                 print("template_replace: %s -> %s" %(key, val))
         else:
@@ -478,6 +477,12 @@ def template_replace(txt, dct, conv=False, warn_mult_found=True,
                 print("template_replace: key not found: %s" %tst_key)
     if is_dct_mode:
         new_txt = txt % dct
+    elif rules:
+        # prefer longer keys if one is part of the other
+        pat = '|'.join(map(re.escape, sorted(rules, key=len, reverse=True)))
+        new_txt = re.sub(pat, lambda m: rules[m.group()], txt)
+    else:
+        new_txt = txt
     return new_txt
 
 
-- 
2.43.0


From 713ad6fdf6372b8552f2601d6285a6b8491f020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 041/107] fix: backup: handle trailing slash and dangling links
 named like backups

---
 src/pwtools/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index fea1482..0b37f3d 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -529,6 +529,8 @@ def backup(src, prefix='.'):
         name of file/dir to be copied
     prefix : str, optional
     """
+    # "dir/" -> "dir", else we place the copy inside of dir
+    src = src.rstrip(os.sep)
     if os.path.exists(src):
         if os.path.isfile(src):
             copy = shutil.copy
@@ -538,11 +540,12 @@ def backup(src, prefix='.'):
             raise Exception("source '%s' is not file or dir" %src)
         idx = 0
         dst = src + '%s%s' %(prefix,idx)
-        while os.path.exists(dst):
+        # lexists: also don't use the name of a dangling link
+        while os.path.lexists(dst):
             idx += 1
             dst = src + '%s%s' %(prefix,idx)
         # sanity check
-        if os.path.exists(dst):
+        if os.path.lexists(dst):
             raise Exception("destination '%s' exists" %dst)
         else:
             copy(src, dst)
-- 
2.43.0


From 2c149c4a4595e6b09db51fd85648aabb988498ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 042/107] fix: is_seq, flatten: bytes (e.g. sqlite BLOBs) are
 not a sequence

---
 src/pwtools/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 0b37f3d..19277a9 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -602,7 +602,7 @@ def is_seq(seq):
     ----------
     seq : (nested) sequence of arbitrary objects
     """
-    if isinstance(seq, str) or \
+    if isinstance(seq, (str, bytes)) or \
        isinstance(seq, io.IOBase):
        return False
     else:
-- 
2.43.0


From dbb83d106e2f8b4c66bab903f52663986724e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 043/107] fix: SQLiteDB: fill_column, attach_column: handle
 tables without rows

---
 src/pwtools/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 2288683..870f370 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -328,7 +328,9 @@ class SQLiteDB:
         ----------
         table : str, optional
         """
-        return self.get_single("select max(rowid) from %s" %self._get_table(table))
+        maxrowid = self.get_single("select max(rowid) from %s" %self._get_table(table))
+        # no rows: None
+        return 0 if maxrowid is None else maxrowid
 
     def fill_column(self, col, values, start=1, extend=True,
                     overwrite=False, table=None):
-- 
2.43.0


From e28444072668dcee9cddc978d94b19626ee4d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 044/107] fix: ParameterStudy: write excl_push also if db_table
 is not 'calc'

---
 src/pwtools/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 47ec13b..756b1d3 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -607,8 +607,9 @@ class ParameterStudy:
                   ",".join(['?']*len(list(record.keys()))))
             sqldb.execute(cmd, tuple(entry.sqlval for entry in record.values()))
         if excl and revision > 0 and sqldb.has_column('revision'):
-            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from calc where \
-                                                          revision < ?", (revision,))]
+            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from %s where \
+                                                          revision < ?" %self.db_table,
+                                                          (revision,))]
             common.file_write(pj(self.calc_root, 'excl_push'),
                               '\n'.join(old_idx_lst))
         sqldb.finish()
-- 
2.43.0


From 8becf76bc692693be223c8db59600ccb044dbc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 045/107] fix: ParameterStudy: mode='w' with special characters
 in calc_dir

---
 src/pwtools/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 756b1d3..f199aec 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -2,6 +2,7 @@
 
 import os
 import copy
+import shlex
 import shutil
 from collections.abc import Callable
 
@@ -558,7 +559,7 @@ class ParameterStudy:
                 if backup:
                     common.backup(calc_dir)
                 if mode == 'w':
-                    common.system("rm -r %s" %calc_dir, wait=True)
+                    common.system("rm -r -- %s" %shlex.quote(calc_dir), wait=True)
             run_txt = "here=$(pwd)\n"
             for _idx, params in enumerate(self.params_lst):
                 params = common.flatten(params)
-- 
2.43.0


From 2981d8791e286f9890dba2bbcf3d1f1c2fc47966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 046/107] fix: ParameterStudy: parameters which are None in
 some parameter sets

---
 src/pwtools/batch.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index f199aec..ff34190 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -593,14 +593,16 @@ class ParameterStudy:
         # make a set = unique entries
         raw_header = [(key, entry.sqltype.upper()) for record in sql_records \
             for key, entry in record.items()]
-        header = list(set(raw_header))
+        # missing values (NULL) don't determine the type of a column
+        typed_keys = set(key for key, sqltype in raw_header if sqltype != 'NULL')
+        header = [(key, sqltype) for key, sqltype in set(raw_header) \
+            if sqltype != 'NULL' or key not in typed_keys]
         if have_new_db:
             sqldb.create_table(header)
         else:
-            for record in sql_records:
-                for key, entry in record.items():
-                    if not sqldb.has_column(key):
-                        sqldb.add_column(key, entry.sqltype.upper())
+            for key, sqltype in header:
+                if not sqldb.has_column(key):
+                    sqldb.add_column(key, sqltype)
         for record in sql_records:
             cmd = "insert into %s (%s) values (%s)"\
                 %(self.db_table,
-- 
2.43.0


From 4b78bfbb2ead3eeaed41e2a2e5ed25deefe26ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 047/107] fix: ParameterStudy: append to a database without
 rows

---
 src/pwtools/batch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index ff34190..34c8b7d 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -540,13 +540,16 @@ class ParameterStudy:
                 if sqldb.has_column('idx'):
                     max_idx = sqldb.execute("select max(idx) from %s" \
                     %self.db_table).fetchone()[0]
+                    if max_idx is None:
+                        max_idx = -1
                 else:
                     raise Exception("database '%s': table '%s' has no "
                           "column 'idx', don't know how to number calcs"
                           %(self.dbfn, self.db_table))
                 if sqldb.has_column('revision'):
-                    revision = int(sqldb.get_single("select max(revision) \
-                        from %s" %self.db_table)) + 1
+                    max_rev = sqldb.get_single("select max(revision) \
+                        from %s" %self.db_table)
+                    revision = 0 if max_rev is None else int(max_rev) + 1
             elif mode == 'w':
                 max_idx = -1
         sql_records = []
-- 
2.43.0


From 244a6b45377b3c2b3f4970066710d0b9320a48a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 048/107] fix: ffloat: ignore kind parameter also in numbers
 with e exponent

---
 src/pwtools/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 19277a9..797114b 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -170,7 +170,8 @@ def ffloat(st):
     assert_cond(isinstance(st, str), "`st` must be string")
     st = st.lower()
     if not 'd' in st:
-        return float(st)
+        # float('3.0e5_10') == float('3.0e510')
+        return float(st.split('_')[0])
     else:
         # >>> s='  40.0d+02_10  '
         # >>> m.groups()
-- 
2.43.0


From f738ca47559122df28e657ff58d0fe2add38406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 049/107] fix: num.sliceput: use a tuple of slices as index

---
 src/pwtools/num.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index b596311..d799753 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -568,11 +568,12 @@ def sliceput(a, b, sl, axis=None):
     """
     if axis is None:
         # silce(...) or (slice(...), slice(...), ...)
-        tmp = sl
+        tmp = tuple(sl) if isinstance(sl, list) else sl
     else:
-        # [slice(...), slice(...), ...]
+        # (slice(...), slice(...), ...)
         tmp = [slice(None)] * len(a.shape)
         tmp[axis] = sl
+        tmp = tuple(tmp)
     a[tmp] = b
     return a
 
-- 
2.43.0


From 4414e3128f7f186e69675442ecf26af9e68c7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 050/107] fix: num.sum: negative axes, pass keywords to np.sum

---
 src/pwtools/num.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index d799753..4ebc5ab 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -693,19 +693,7 @@ def sum(arr, axis=None, keepdims=False, **kwds):
     >>> num.sum(a, axis=(0,2)) - a.sum(axis=0).sum(axis=1)
     array([ 0.,  0.,  0.])
     """
-    # Recursion rocks!
-    def _sum(arr, tosum):
-        if len(tosum) > 0:
-            # Choose axis to sum over, remove from list w/ remaining axes.
-            axis = tosum.pop(0)
-            _arr = arr.sum(axis=axis)
-            # arr has one dim less now. Rename remaining axes accordingly.
-            _tosum = [xx - 1 if xx > axis else xx for xx in tosum]
-            return _sum(_arr, _tosum)
-        else:
-            return arr
-
-    axis_is_int = isinstance(axis, int)
+    axis_is_int = isinstance(axis, (int, np.integer))
     if axis is None:
         if keepdims:
             raise Exception("axis=None + keepdims=True makes no sense")
@@ -721,9 +709,11 @@ def sum(arr, axis=None, keepdims=False, **kwds):
         else:
             raise Exception("illegal type for axis: %s" % str(type(axis)))
         if keepdims:
+            # axis may be negative
             alldims = range(arr.ndim)
-            tosum = [xx for xx in alldims if xx not in tosum]
-        return _sum(arr, tosum)
+            tokeep = [alldims[xx] for xx in tosum]
+            tosum = [xx for xx in alldims if xx not in tokeep]
+        return np.sum(arr, axis=tuple(tosum), **kwds)
 
 
 class Interpol2D:
-- 
2.43.0


From 2e143ad5b7fa912e40fca0d963e5f212a7bd45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 051/107] fix: num.polyfit: constant values or point
 coordinates with scale=True

---
 src/pwtools/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 4ebc5ab..c1e23a8 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1354,6 +1354,9 @@ def polyfit(points, values, deg, scale=True, scale_vand=False):
         vmin = values.min()
         pscale = np.abs(points).max(axis=0)[None, :] - pmin
         vscale = np.abs(values).max() - vmin
+        # constant values or points
+        pscale = np.where(pscale == 0, 1.0, pscale)
+        vscale = 1.0 if vscale == 0 else vscale
     else:
         pscale = np.ones((points.shape[1],), dtype=float)[None, :]
         vscale = 1.0
-- 
2.43.0


From 34125b2bfe2ed1e922ae00762c4bc80114064e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 052/107] fix: PolyFit1D: accept points with shape (npoints,1)

---
 src/pwtools/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index c1e23a8..bf679a8 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1564,7 +1564,7 @@ class PolyFit1D(Fit1D, PolyFit):
             return pp[:, None]
         # (M,N)
         elif pp.ndim == 2:
-            assert pp.shape[1] == self.fit["ndim"], "points have wrong ndim"
+            assert pp.shape[1] == 1, "points have wrong ndim"
             return pp
         else:
             raise ValueError("points has wrong shape or dim")
-- 
2.43.0


From 31aaf4caa4d2c014aec2cb4973acf7a69c40b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 053/107] fix: num.order_similar: use the requested
 extrapolation order for all points and repetitions

---
 src/pwtools/num.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index bf679a8..389640a 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1723,10 +1723,10 @@ def order_similar(arr, repeat=1, order=2):
         arr2[0, :] = arr[0, :]
         for ii in range(ni - 1):
             for jj in range(nj):
-                if (ii == 0) and _o_zero:
+                if _o_zero and (ii == 0 or not _o_one):
                     # 1st row: choose next similar point
                     ref = arr2[ii, jj]
-                elif (ii == 1) and _o_one:
+                elif _o_one and (ii == 1 or not _o_two):
                     # 2 rows: linear extrapolation
                     ref = 2 * arr2[ii, jj] - arr2[ii - 1, jj]
                 elif (ii >= 2) and _o_two:
@@ -1743,7 +1743,7 @@ def order_similar(arr, repeat=1, order=2):
                 idx = np.argmin(dif)
                 arr2[ii + 1, jj] = arr[ii + 1, idx]
     else:
-        arr2 = order_similar(arr, repeat=repeat - 1)
+        arr2 = order_similar(arr, repeat=repeat - 1, order=order)
     return arr2
 
 
-- 
2.43.0


From e238a45d15bc41bf25af94f5d14658416235f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 054/107] fix: signal.fft_1d_loop: negative axis other than -1

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 853955f..2ee78d7 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -189,7 +189,7 @@ def fft_1d_loop(arr, axis=-1):
     nice reference for how to loop over remaining axes in the ndarray case.
     """
     if axis < 0:
-        axis = arr.ndim - 1
+        axis = arr.ndim + axis
     axes = [ax for ax in range(arr.ndim) if ax != axis]
     # tuple here is 3x faster than generator expression
     #   idxs = (range(arr.shape[ax]) for ax in axes)
-- 
2.43.0


From 2a58a759ce3a51b46b471bb9d0b7e78e450b41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 055/107] fix: signal.mirror: honor axis

---
 src/pwtools/signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 2ee78d7..6997f51 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -361,7 +361,9 @@ cauchy = lorentz
 def mirror(arr, axis=0):
     """Mirror array `arr` at index 0 along `axis`.
     The length of the returned array is 2*arr.shape[axis]-1 ."""
-    return np.concatenate((arr[::-1],arr[1:]), axis=axis)
+    left = num.slicetake(arr, slice(None, None, -1), axis=axis)
+    right = num.slicetake(arr, slice(1, None), axis=axis)
+    return np.concatenate((left, right), axis=axis)
 
 # XXX
 # Check f2py wrapper of _flib.acorr(): The signature is:
-- 
2.43.0


From 23dfcc26c85e9a65a1cd7547bbf308393909777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 056/107] fix: find_peaks: compare the peak itself with ymin

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 6997f51..c9b87e6 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -565,7 +565,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     idx0 = []
     dfy = np.diff(y, n=1)
     for ii in range(len(dfy)-1):
-        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii] >= ymin:
+        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii+1] >= ymin:
             idx0.append(ii+1)
     pos0 = None
     if x is not None:
-- 
2.43.0


From 355c8cc4277d0ad8c6bb2564152dfe2ae06d1aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 057/107] fix: find_peaks: peaks closer than spread to the
 start

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index c9b87e6..8cedd69 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -571,7 +571,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     if x is not None:
         pos0 = []
         for i0 in idx0:
-            sl = slice(i0-spread,i0+1+spread,None)
+            sl = slice(max(i0-spread,0),i0+1+spread,None)
             xx = x[sl]
             yy = y[sl]
             spl = num.Spline(xx,-yy,k=k,s=None)
-- 
2.43.0


From ed08d11171b0735e6992dc5363943870cc6a2f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 058/107] fix: FIRFilter: use fs instead of nyq, undefined name
 in bandstop mode

---
 src/pwtools/signal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 8cedd69..759ab2f 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -952,11 +952,11 @@ class FIRFilter:
         elif mode == 'bandstop':
             pass_zero = True
             assert len(cutoff) == 2
-            if N % 2 == 0:
-                N += 1
+            if self.ntaps % 2 == 0:
+                self.ntaps += 1
         else:
             raise Exception('unknown mode')
-        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, nyq=nyq,
+        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, fs=2*nyq,
                            pass_zero=pass_zero, width=width)
         w,h = freqz(self.taps)
         self.w = (w/np.pi)*nyq
-- 
2.43.0


From 9686ea71fa142b8571ae9a858180960d6d213bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 059/107] fix: signal.scale: integer arrays

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 759ab2f..ef1fe85 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -874,7 +874,7 @@ def scale(x, copy=True):
     """
     xx = x.copy() if copy else x
     xx = xx - xx.min()
-    xx /= xx.max()
+    xx = xx / xx.max()
     return xx
 
 
-- 
2.43.0


From 79addd23184f00a14decb35b67c49c06c081d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:16 +0000
Subject: [PATCH 060/107] fix: mpl.plotlines3d: 1d z

---
 src/pwtools/mpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 506f12a..58b5f94 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -65,7 +65,7 @@ def plotlines3d(ax3d, x,y,z, *args, **kwargs):
     assert xx.shape == zz.shape
     assert len(y) == xx.shape[1] == zz.shape[1]
     for j in range(xx.shape[1]):
-        ax3d.plot(xx[:,j], np.ones(xx.shape[0])*y[j], z[:,j], *args, **kwargs)
+        ax3d.plot(xx[:,j], np.ones(xx.shape[0])*y[j], zz[:,j], *args, **kwargs)
     return ax3d
 
 
-- 
2.43.0


From ad9105d0885ac4f77704fd8e531162bb25ab7144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 061/107] fix: Data2D.update: new data was overwritten by old
 data in another form

---
 src/pwtools/mpl.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 58b5f94..38fd17f 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -491,6 +491,16 @@ class Data2D:
         for key,val in kwds.items():
             assert key in self.attr_lst, ("'%s' not allowed" %key)
             setattr(self, key, val)
+        # forget old data in other forms than the new one
+        xy_forms = [('x', 'y'), ('X', 'Y'), ('xx', 'yy'), ('XY',)]
+        new_forms = [form for form in xy_forms if any(k in kwds for k in form)]
+        if len(new_forms) > 0:
+            for form in xy_forms:
+                if form not in new_forms:
+                    for key in form:
+                        setattr(self, key, None)
+        if 'zz' in kwds and 'Z' not in kwds:
+            self.Z = None
         self._update()
 
     def copy(self):
-- 
2.43.0


From db3707352a621d29f7673da1ee6bf3c405cba9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 062/107] fix: open_file() of the DCD reader declares its input
 unit number intent(out)

---
 src/_ext_src/dcd.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_ext_src/dcd.f90 b/src/_ext_src/dcd.f90
index 5da8ed7..0c09e4c 100644
--- a/src/_ext_src/dcd.f90
+++ b/src/_ext_src/dcd.f90
@@ -17,7 +17,7 @@
 subroutine open_file(filename, unt)
     implicit none
     character(len=1024), intent(in) :: filename
-    integer, intent(out) :: unt
+    integer, intent(in) :: unt
     integer :: iost
     open(unit=unt, file=trim(filename), status='old', form='unformatted', &
          action='read', iostat=iost)
-- 
2.43.0


From 90bdf0ab798ae27acca18095c457769d7c66591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 063/107] fix: angles() leaves 180 degree angles unconverted if
 mask_val=-1

---
 src/_ext_src/flib.f90 | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/_ext_src/flib.f90 b/src/_ext_src/flib.f90
index 7f92381..ec4f937 100644
--- a/src/_ext_src/flib.f90
+++ b/src/_ext_src/flib.f90
@@ -368,6 +368,13 @@ subroutine angles(distvecs, dists, mask_val, deg, anglesijk, natoms)
                 if (ii /= jj .and. ii /= kk .and. jj /= kk) then
                     cang = dot_product(distvecs(ii,jj,:), distvecs(ii,kk,:)) &
                         / dists(ii,jj) / dists(ii,kk)
+                    if (deg==1) then
+                        ! handle numerical corner cases where acos() can return
+                        ! NaN, note that eps is hardcoded currently
+                        if (cang > ceps) cang = 1.0d0
+                        if (cang < -ceps) cang = -1.0d0
+                        cang = acos(cang) * 180.0d0 / pi
+                    end if
                     anglesijk(ii,jj,kk) = cang
                 else
                     anglesijk(ii,jj,kk) = mask_val
@@ -375,13 +382,6 @@ subroutine angles(distvecs, dists, mask_val, deg, anglesijk, natoms)
             end do
         end do
     end do
-    if (deg==1) then
-        ! handle numerical corner cases where acos() can return NaN,
-        ! note that eps is hardcoded currently
-        where (anglesijk /= mask_val .and. anglesijk > ceps) anglesijk = 1.0d0
-        where (anglesijk /= mask_val .and. anglesijk < -ceps) anglesijk = -1.0d0
-        where (anglesijk /= mask_val) anglesijk = acos(anglesijk) * 180.0d0 / pi
-    end if
 end subroutine angles
 
 
-- 
2.43.0


From 7d6b34c11601110ed2a68117726f9e45b882b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 064/107] fix: EosFit stops early if the energies have a large
 offset

---
 src/pwtools/eos.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index d9642f8..bc150e7 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -181,11 +181,16 @@ class EosFit(Fit1D):
 
         # need to use lst2dct and dct2lst here to keep the order of parameters
         pp0_dct = dict(e0=e0, b0=b0, b1=b1, v0=v0)
-        target = lambda pp, v: self.energy - self.func(v, self.func.lst2dct(pp))
-        pp_opt, ierr = leastsq(target,
-                               self.func.dct2lst(pp0_dct),
-                               args=(self.volume,))
-        self.params = self.func.lst2dct(pp_opt)
+        pp0 = np.array(self.func.dct2lst(pp0_dct))
+        # Optimize the scaled deviation from the initial guess. The convergence
+        # criteria of leastsq() are relative to the norm of all parameters,
+        # which is dominated by e0 in case of a large energy offset.
+        scale_dct = dict(e0=np.ptp(self.energy), b0=abs(b0), b1=b1, v0=v0)
+        scale = np.array(self.func.dct2lst(scale_dct))
+        get_params = lambda xx: self.func.lst2dct(pp0 + scale*xx)
+        target = lambda xx: self.energy - self.func(self.volume, get_params(xx))
+        xx_opt, ierr = leastsq(target, np.zeros(len(pp0)))
+        self.params = get_params(xx_opt)
 
     def __call__(self, volume, der=0):
         """
-- 
2.43.0


From 6a16f907b95d4b2a1f90eec31976336d06b617c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 065/107] fix: EosFit.bulkmod() ignores the volume

---
 src/pwtools/eos.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index bc150e7..b5b1a45 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -232,10 +232,7 @@ class EosFit(Fit1D):
         volume : scalar, 1d array
             volume per atom [Ang^3]
         """
-        if 'b0' in self.params:
-            return self.params['b0'] * eV_by_Ang3_to_GPa
-        else:
-            return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
+        return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
 
 
 class ExternEOS(FlexibleGetters):
-- 
2.43.0


From c99989ee58f45d4395cc86b04067cfca2575b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 066/107] fix: ExternEOS runs the executable given as absolute
 path

---
 src/pwtools/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index b5b1a45..9da686c 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -560,7 +560,7 @@ class ElkEOSFit(ExternEOS):
              len(volume),
              common.str_arr(data))
         common.file_write(self.infn, infn_txt)
-        out = common.backtick('cd %s && %s' %(self.dir, self.app_basename))
+        out = common.backtick('cd %s && %s' %(self.dir, self.app))
         if self.verbose:
             print(out)
             print((open(os.path.join(self.dir,'PARAM.OUT')).read()))
-- 
2.43.0


From e93860b728baccb4083eda4cc3a9a840d29998fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 067/107] fix: ExternEOS.fit() keeps the splines of a previous
 fit

---
 src/pwtools/eos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index 9da686c..04af25e 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -352,6 +352,10 @@ class ExternEOS(FlexibleGetters):
 
         """
         self._fit(*args, **kwargs)
+        # drop splines of a previous fit
+        self.spl_ev = None
+        self.spl_pv = None
+        self.spl_bv = None
         self.bv = self.calc_bv()
         self.try_set_attr('spl_ev')
         self.try_set_attr('spl_pv')
-- 
2.43.0


From 1a58b7874829b0c103a6c17a4a2f80004f7dd271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 068/107] fix: EosFit loses parameters in rounding errors for
 large energy offsets

---
 src/pwtools/eos.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index 04af25e..5f10a64 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -171,7 +171,12 @@ class EosFit(Fit1D):
         # Quadratic fit to get an initial guess for the parameters.
         # Thanks: https://github.com/materialsproject/pymatgen
         # -> pymatgen/io/abinitio/eos.py
-        a, b, c = np.polyfit(self.volume, self.energy, 2)
+        #
+        # Fit energies relative to their mean. With a large energy offset, the
+        # parameters are otherwise lost in rounding errors.
+        eref = self.energy.mean()
+        energy = self.energy - eref
+        a, b, c = np.polyfit(self.volume, energy, 2)
         v0 = -b/(2*a)
         e0 = a*v0**2 + b*v0 + c
         b0 = 2*a*v0
@@ -181,16 +186,12 @@ class EosFit(Fit1D):
 
         # need to use lst2dct and dct2lst here to keep the order of parameters
         pp0_dct = dict(e0=e0, b0=b0, b1=b1, v0=v0)
-        pp0 = np.array(self.func.dct2lst(pp0_dct))
-        # Optimize the scaled deviation from the initial guess. The convergence
-        # criteria of leastsq() are relative to the norm of all parameters,
-        # which is dominated by e0 in case of a large energy offset.
-        scale_dct = dict(e0=np.ptp(self.energy), b0=abs(b0), b1=b1, v0=v0)
-        scale = np.array(self.func.dct2lst(scale_dct))
-        get_params = lambda xx: self.func.lst2dct(pp0 + scale*xx)
-        target = lambda xx: self.energy - self.func(self.volume, get_params(xx))
-        xx_opt, ierr = leastsq(target, np.zeros(len(pp0)))
-        self.params = get_params(xx_opt)
+        target = lambda pp, v: energy - self.func(v, self.func.lst2dct(pp))
+        pp_opt, ierr = leastsq(target,
+                               self.func.dct2lst(pp0_dct),
+                               args=(self.volume,))
+        self.params = self.func.lst2dct(pp_opt)
+        self.params['e0'] += eref
 
     def __call__(self, volume, der=0):
         """
-- 
2.43.0


From de9bcf0c7c1588f16173009929ea79274b988859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 069/107] fix: Fit1D root search assumes sorted x values

---
 src/pwtools/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 389640a..bd962e1 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -219,7 +219,7 @@ class Fit1D:
     def _findroot(self, func, x0=None, xab=None, **kwds):
         """Find root of `func` by Newton's method if `x0` is given or Brent's
         method if `xab` is given. If neither is given, then
-        ``xab=[self.x[0],self.x[-1]]`` and Brent's method is used.
+        ``xab=[min(self.x),max(self.x)]`` and Brent's method is used.
 
         Parameters
         ----------
@@ -240,7 +240,7 @@ class Fit1D:
             xx = optimize.newton(func, x0, **kwds)
         else:
             if xab is None:
-                xab = [self.x[0], self.x[-1]]
+                xab = [np.min(self.x), np.max(self.x)]
             xx = optimize.brentq(func, xab[0], xab[1], **kwds)
         return xx
 
-- 
2.43.0


From 11f2776dd3e66dd85dad6d9f831546649864f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 070/107] fix: HarmonicThermo free energy and entropy overflow
 at low T

---
 src/pwtools/thermo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 61a544c..3ab0c5a 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -13,6 +13,11 @@ def coth(x):
     return 1.0/np.tanh(x)
 
 
+def _log2sinh(x):
+    # log(2*sinh(x)) without overflow for large x
+    return x + np.log(-np.expm1(-2.0*x))
+
+
 class HarmonicThermo:
     """Calculate vibrational internal energy (Evib [eV]), free energy (Fvib
     [eV]), entropy (Svib [R,kb]) and isochoric heat capacity (Cv [R,kb]) in the
@@ -218,7 +223,7 @@ class HarmonicThermo:
         h, f, kb, dos = self.h, self.f, self.kb, self.dos
         T = self._get_temp(temp)
         arg = h * f / (kb*T[:,None])
-        y = dos * np.log(2.0*np.sinh(arg/2.0))
+        y = dos * _log2sinh(arg/2.0)
         ret = self._integrate(y,f) * T
         return ret * (kb / eV)
 
@@ -228,7 +233,7 @@ class HarmonicThermo:
         T = self._get_temp(temp)
         arg = h * f / (kb*T[:,None])
         y = dos * (0.5/T[:,None] * (h / kb) * f * coth(arg/2.0) -
-                   np.log(2.0*np.sinh(arg/2.0)))
+                   _log2sinh(arg/2.0))
         ret = self._integrate(y,f)
         return ret
 
-- 
2.43.0


From 30ef20a2499fb4361fd5bac8951e0a69cdda0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 071/107] fix: Gibbs default heat capacity fit refuses large
 total energies

num.Spline's default eps is absolute. G/kb [K] for a total energy of some
-100 eV is so large that its rounding errors exceed 1e-10.
---
 src/pwtools/thermo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 3ab0c5a..c45cf9f 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -526,7 +526,9 @@ class Gibbs:
 
     @staticmethod
     def _default_fit_C(x, y):
-        return num.Spline(x, y, k=5, s=None)
+        # y = G/kb in K is large (~1e6 for G = 100 eV), use a relative eps
+        eps = 1e-10 * max(1.0, np.abs(y).max())
+        return num.Spline(x, y, k=5, s=None, eps=eps)
 
     def _fit_opt_store(self, ret, gg, prfx='/T/P', ghsym='G', tpidx=None):
         """For each (T,P) or (P,), fit G(ax0,...) or H(ax0,...) minimize and store
-- 
2.43.0


From 57ce5cb50f51ecb35fb7e409c96984e8ce26a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 072/107] fix: Rbf predictions and derivatives are NaN if all
 weights are zero

---
 src/pwtools/rbf/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/core.py b/src/pwtools/rbf/core.py
index 197c625..cd78418 100644
--- a/src/pwtools/rbf/core.py
+++ b/src/pwtools/rbf/core.py
@@ -401,6 +401,11 @@ class Rbf:
             kwds = dict(assume_a="sym")
         return la.solve(Gr, self.values, **kwds)
 
+    def _get_maxw(self):
+        """Normalization factor for the weights, 1 if all weights are zero."""
+        maxw = np.abs(self.w).max() * 1.0
+        return np.where(maxw == 0, 1.0, maxw)
+
     # XXX the jit here causes a 3x speed up over numpy but a huge performance
     # regression in test_rbf.py::test_opt_api, not sure why. Basically, the
     # test never finishes. W/o the jit, the jax.numpy predict is 4x slower than
@@ -427,7 +432,7 @@ class Rbf:
             "g_ij must match length of w_j" % (str(G.shape), str(self.w.shape))
         )
         # normalize w
-        maxw = np.abs(self.w).max() * 1.0
+        maxw = self._get_maxw()
         values = np.dot(G, self.w / maxw) * maxw
         return values[0] if _got_single_point else values
 
@@ -543,7 +548,7 @@ class Rbf:
         L, N = points.shape
         centers = self.points
         G = self.rbf(self.get_distsq(points=points), self.p)
-        maxw = np.abs(self.w).max() * 1.0
+        maxw = self._get_maxw()
         fname = self.rbf.__name__
 
         # fmt: off
-- 
2.43.0


From 8fb03a2cd1d13e0a55b6e0adbce652ca039b38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 073/107] fix: fit_opt(method='brute') with default bounds
 fails since p=0 is tried

---
 src/pwtools/rbf/hyperopt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index acfb007..36cd61c 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -228,10 +228,12 @@ def fit_opt(
             x0 = opt_kwds.pop("x0", [_get_p0(), 1e-8])
         xopt = optimize.fmin(fit_err, x0, disp=disp, **opt_kwds)
     elif method in ["de", "brute"]:
+        # p=0 is not a valid parameter, but brute() evaluates the bounds
+        p_bounds = (1e-3 * _get_p0(), 5 * _get_p0())
         if what == "p":
-            _bounds = [(0, 5 * _get_p0())]
+            _bounds = [p_bounds]
         elif what == "pr":
-            _bounds = [(0, 5 * _get_p0()), (1e-12, 1e-1)]
+            _bounds = [p_bounds, (1e-12, 1e-1)]
         if method == "de":
             bounds = opt_kwds.pop("bounds", _bounds)
             ret = optimize.differential_evolution(
-- 
2.43.0


From a484fafc0d79b45d46c0594db8078c75c1c11acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 074/107] fix: Rbf.fit_error overflows for negative p and large
 errors

---
 src/pwtools/rbf/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/core.py b/src/pwtools/rbf/core.py
index cd78418..d62d702 100644
--- a/src/pwtools/rbf/core.py
+++ b/src/pwtools/rbf/core.py
@@ -5,7 +5,6 @@ Radial Basis Function regression. See :ref:`rbf` for details.
 from pprint import pformat
 
 ##from functools import partial
-import math
 
 from pwtools import config
 
@@ -602,7 +601,7 @@ class Rbf:
         """Sum of squared fit errors with penalty on negative `p`."""
         res = values - self(points)
         err = np.dot(res, res) / len(res)
-        return math.exp(abs(err)) if self.p < 0 else err
+        return np.exp(abs(err)) if self.p < 0 else err
 
     def __call__(self, *args, **kwargs):
         """
-- 
2.43.0


From dd31877b52b9123d3c687bd9c20de7fc5386f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 075/107] fix: EosFit doesn't detect a parabola minimum above
 the input volumes

---
 src/pwtools/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index 5f10a64..8d40f42 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -181,7 +181,7 @@ class EosFit(Fit1D):
         e0 = a*v0**2 + b*v0 + c
         b0 = 2*a*v0
         b1 = 4  # b1 is usually a small number like 4
-        if not self.volume.min() < v0 and v0 < self.volume.max():
+        if not (self.volume.min() < v0 < self.volume.max()):
             raise Exception('The minimum volume of a fitted parabola is not in the input volumes')
 
         # need to use lst2dct and dct2lst here to keep the order of parameters
-- 
2.43.0


From 80f1d0345b31344af374ef27b208da1badf2c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 076/107] fix: SpecialPointsPath requires the optional ks_frac

---
 src/pwtools/kpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 4dc1ac9..fa19b41 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -71,7 +71,7 @@ class SpecialPointsPath:
         symbols : sequence of strings (nks,), optional
             special point symbol each point in `ks`
         """
-        assert (ks is not None) and (ks_frac is not None), ("use either ks or ks_frac")
+        assert ks is not None, "ks needed for path norm"
         self.ks = ks
         self.ks_frac = ks_frac
         self.symbols = symbols
-- 
2.43.0


From 7ba879f6dcb21007521070be0ec5a5f3ef30a75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 077/107] fix: plot_dis without special_points_path raises
 UnboundLocalError

---
 src/pwtools/kpath.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index fa19b41..751c37b 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -177,15 +177,15 @@ def plot_dis(path_norm, freqs, special_points_path=None,
         ax.set_xticklabels(labels)
         ax.set_xlim(path_norm[0], path_norm[-1])
         ax.set_ylabel("frequency (cm$^{-1}$)")
-        if dos is not None:
-            # http://matplotlib.org/examples/axes_grid/scatter_hist.html
-            from mpl_toolkits.axes_grid1 import make_axes_locatable
-            divider = make_axes_locatable(ax)
-            axdos = divider.append_axes("right", 1.2, pad=0.1, sharey=ax)
-            axdos.plot(dos[:,1], dos[:,0], 'b')
-            mpl.plt.setp(axdos.get_yticklabels(), visible=False)
-            mpl.plt.setp(axdos.get_xticklabels(), visible=False)
-            axdos.xaxis.set_tick_params(size=0)
-        else:
-            axdos = None
+    if dos is not None:
+        # http://matplotlib.org/examples/axes_grid/scatter_hist.html
+        from mpl_toolkits.axes_grid1 import make_axes_locatable
+        divider = make_axes_locatable(ax)
+        axdos = divider.append_axes("right", 1.2, pad=0.1, sharey=ax)
+        axdos.plot(dos[:,1], dos[:,0], 'b')
+        mpl.plt.setp(axdos.get_yticklabels(), visible=False)
+        mpl.plt.setp(axdos.get_xticklabels(), visible=False)
+        axdos.xaxis.set_tick_params(size=0)
+    else:
+        axdos = None
     return fig, ax, axdos
-- 
2.43.0


From fe7897fe58851140f283192be616389bc396aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 078/107] fix: plot_dis fails for a SpecialPointsPath without
 symbols

---
 src/pwtools/kpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 751c37b..4d3eaa5 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -159,6 +159,8 @@ def plot_dis(path_norm, freqs, special_points_path=None,
             special_points_path.ks_frac, \
             special_points_path.path_norm, \
             special_points_path.symbols
+        if symbols is None:
+            symbols = [''] * len(nrm)
         ax.vlines(nrm, ylim[0], ylim[1])
         fmtfunc = lambda x: "%.2g" %x
         if show_coords is None:
-- 
2.43.0


From 7671bcd3c01733b52b1a6765afd44d1ccc6d7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 079/107] fix: plot_dis ignores the frequency axis limits ylim

---
 src/pwtools/kpath.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 4d3eaa5..bd0f6cc 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -153,7 +153,7 @@ def plot_dis(path_norm, freqs, special_points_path=None,
     # Plot columns of `freq` against q points (path_norm)
     ax.plot(path_norm, freqs, **kwargs)
     if special_points_path is not None:
-        ylim = ax.get_ylim() if ylim is None else ylim
+        ymin, ymax = ax.get_ylim() if ylim is None else ylim
         ks, ks_frac, nrm, symbols = \
             special_points_path.ks, \
             special_points_path.ks_frac, \
@@ -161,7 +161,7 @@ def plot_dis(path_norm, freqs, special_points_path=None,
             special_points_path.symbols
         if symbols is None:
             symbols = [''] * len(nrm)
-        ax.vlines(nrm, ylim[0], ylim[1])
+        ax.vlines(nrm, ymin, ymax)
         fmtfunc = lambda x: "%.2g" %x
         if show_coords is None:
             labels = symbols
@@ -179,6 +179,8 @@ def plot_dis(path_norm, freqs, special_points_path=None,
         ax.set_xticklabels(labels)
         ax.set_xlim(path_norm[0], path_norm[-1])
         ax.set_ylabel("frequency (cm$^{-1}$)")
+    if ylim is not None:
+        ax.set_ylim(ylim)
     if dos is not None:
         # http://matplotlib.org/examples/axes_grid/scatter_hist.html
         from mpl_toolkits.axes_grid1 import make_axes_locatable
-- 
2.43.0


From 182171f481b2429847a4038734d41e8e245f133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 080/107] fix: random structures violate the closeness limit in
 skewed or small cells

The minimum image distance from rounding fractional coordinates can be larger
than the true one. Atoms closer than the allowed distance were accepted.
---
 src/pwtools/random.py | 53 ++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 33 deletions(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index 66fd687..b20b461 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -1,9 +1,9 @@
+from itertools import product
 from math import acos, pi, sin, cos, sqrt
 import numpy as np
 from numpy.random import uniform
-from pwtools import atomic_data, _flib
+from pwtools import atomic_data
 from pwtools.crys import cc2cell, volume_cc, Structure
-from pwtools.num import fempty
 
 class RandomStructureFail(Exception):
     def __init__(self, msg):
@@ -134,37 +134,24 @@ class RandomStructure:
             Index into self.coords_frac, defining the number of atoms currently
             in there (iatom +1).
         """
-        # dist: min image dist correct only up to rmax_smith(), but we check if
-        #   atoms are too close; too big dists are no problem; choose only upper
-        #   triangle from array `dist`
-        natoms_filled = iatom + 1
-        coords_frac = self.coords_frac[:natoms_filled,:]
-        # This part is 10x slower than the fortran version  --------
-        # distvecs_frac: (natoms_filled, natoms_filled, 3)
-        # distvecs:      (natoms_filled, natoms_filled, 3)
-        # dist:          (natoms_filled, natoms_filled)
-        ##distvecs_frac = coords_frac[:,None,:] - coords_frac[None,:,:]
-        ##distvecs_frac = min_image_convention(sij)
-        ##distvecs = np.dot(sij, self.cell)
-        ##dist = np.sqrt((rij**2.0).sum(axis=2))
-        #-----------------------------------------------------------
-        nn = natoms_filled
-        # XXX For maximum speed: dummy1 and dummy2 may be big and are allocated
-        # each time this method is called, which may be *many* times. Either
-        # re-write the fortran code to not require them as input or allocate
-        # them in __init__().
-        distsq,dummy1,dummy2 = fempty((nn,nn)), fempty((nn,nn,3)), \
-                               fempty((nn,nn,3))
-        distsq, dummy1, dummy2 = _flib.distsq_frac(coords_frac,
-                                                   self.cell,
-                                                   1,
-                                                   distsq,
-                                                   dummy1,
-                                                   dummy2)
-        dist = np.sqrt(distsq)
-        # This part is fast
-        dij_min_filled = self.dij_min[:natoms_filled,:natoms_filled]
-        return np.triu(dist < dij_min_filled, k=1).any()
+        # Minimum image distances from rounding fractional coords are correct
+        # only up to rmax_smith(), which can be smaller than dij_min for few
+        # atoms and skewed cells. Therefore use all periodic images which can
+        # be closer than dij_min. Since atoms are added one by one, only the
+        # distances to the last one need to be checked.
+        if iatom == 0:
+            return False
+        dij_min = self.dij_min[iatom,:iatom]
+        svec = self.coords_frac[:iatom,:] - self.coords_frac[iatom,:]
+        svec -= np.rint(svec)
+        # distances between opposite cell planes
+        heights = 1.0 / np.sqrt((np.linalg.inv(self.cell)**2.0).sum(axis=0))
+        nn = np.ceil(dij_min.max() / heights + 0.5).astype(int)
+        shifts = np.array(list(product(*[range(-ii, ii+1) for ii in nn])))
+        # (iatom, nshifts, 3)
+        rvec = np.dot(svec[:,None,:] + shifts[None,:,:], self.cell)
+        distsq = (rvec**2.0).sum(axis=2).min(axis=1)
+        return (distsq < dij_min**2.0).any()
 
     def _add_random_atom(self, iatom):
         self.coords_frac[iatom,:] = np.random.rand(3)
-- 
2.43.0


From f69ffb04609e4785671bc87eeba7e6ff0e5a2446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 081/107] fix: RandomStructure crashes if random angles cannot
 form a cell

---
 src/pwtools/random.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index b20b461..7e47337 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -113,7 +113,11 @@ class RandomStructure:
         cnt = 1
         while cnt <= self.cell_maxtry:
             cc = _get()
-            vol = volume_cc(cc)
+            try:
+                vol = volume_cc(cc)
+            except ValueError:
+                # there is no cell with these angles
+                vol = -1.0
             if not self.vol_range[0] <= vol <= self.vol_range[1]:
                 cc = _get()
                 cnt += 1
-- 
2.43.0


From 6beacba300c4cbacdd8428d1543a5d22a596f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 082/107] fix: calculator settings leak into calculators
 created later

---
 src/pwtools/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 64f4fc2..0895d5f 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -103,7 +103,7 @@ class CalculatorBase:
             if k not in allowed_keys:
                 raise Exception("key '%s' not allowed, only: \n%s" %(k,
                                 str(allowed_keys)))
-        self.parameters = self.default_parameters
+        self.parameters = dict(self.default_parameters)
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
 
-- 
2.43.0


From 2665dd9003107b649d357e66a7fabd75a816ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 083/107] fix: Pwscf calculator uses the pseudopotential of
 another species

---
 src/pwtools/calculators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 0895d5f..431edc4 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -294,7 +294,10 @@ K_POINTS automatic
             pseudos = []
             for sym in struct.symbols_unique:
                 for ppi in self.pp:
-                    if ppi.startswith(sym):
+                    # longest match: 'Na.xxx.UPF' starts with N as well
+                    match = [x for x in struct.symbols_unique
+                             if ppi.startswith(x)]
+                    if match and max(match, key=len) == sym:
                         pseudos.append(ppi)
                         break
         assert len(pseudos) == struct.ntypat
-- 
2.43.0


From 8ae5dfdfe8220623c5711aaaf32fe1997f0c25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 084/107] fix: Lammps calculator fails in relative directories
 and paths with spaces

---
 src/pwtools/calculators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 431edc4..e56416f 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -366,14 +366,14 @@ boundary p p p
 atom_style atomic
 
 # lmp.struct written by pwtools
-read_data {structfile}
+read_data {prefix}.struct
 
 # interactions
 pair_style {pair_style}
 pair_coeff {pair_coeff}
 
 # IO
-dump dump_txt all custom 1 {dumpfile} id type xu yu zu fx fy fz
+dump dump_txt all custom 1 {prefix}.out.dump id type xu yu zu fx fy fz
 dump_modify dump_txt sort id
 
 thermo_style custom step temp vol cella cellb cellc cellalpha cellbeta cellgamma &
@@ -392,7 +392,7 @@ run 0
         FileIOCalculator.__init__(self, **kwds)
 
         self.infile_templ_keys = list(self.parameters.keys()) + \
-            ['prefix', 'dumpfile', 'structfile']
+            ['prefix']
         self.infile = os.path.join(self.directory, self.prefix + '.in')
         self.outfile = os.path.join(self.directory, self.prefix + '.out')
         self.dumpfile = os.path.join(self.directory, self.prefix + '.out.dump')
-- 
2.43.0


From 933f091c715bc97c22140e20548e9631fecf6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 085/107] fix: Lammps calculator returns forces and stress in
 the rotated LAMMPS frame

---
 src/pwtools/calculators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index e56416f..8dfbb9a 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -38,6 +38,8 @@ dropped.
 import os
 import shutil
 
+import numpy as np
+
 from pwtools import common, pwscf, crys, io, constants
 
 
@@ -418,6 +420,10 @@ run 0
         self.results = {}
         assert os.path.exists(self.outfile), "%s missing" %self.outfile
         st = io.read_lammps_md_txt(self.outfile)[0]
+        # LAMMPS has its own orientation of the cell, rotate back to ours
+        cell = self.atoms.get_cell()
+        rot = np.dot(np.linalg.inv(crys.cc2cell(crys.cell2cc(cell))), cell)
         self.results['energy'] = st.etot
-        self.results['forces'] = st.forces
-        self.results['stress'] = stress_pwtools2ase(st.stress)
+        self.results['forces'] = np.dot(st.forces, rot)
+        self.results['stress'] = stress_pwtools2ase(
+            np.dot(np.dot(rot.T, st.stress), rot))
-- 
2.43.0


From ed26fd5e496f83c23433bf79a69f827f0caa0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 086/107] fix: calculators ignore the default label and command

---
 src/pwtools/calculators.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 8dfbb9a..97a50e7 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -178,11 +178,12 @@ class Pwscf(FileIOCalculator, CalculatorBase):
         pseudo_dir=None,
         smearing=None,
         xc=None,
-        command="pw.x -input pw.in | tee pw.out",
+        command="pw.x -input PREFIX.in | tee PREFIX.out",
         directory='.',
         )
 
     implemented_properties = ['energy', 'forces', 'stress']
+    _legacy_default_command = default_parameters['command']
 
     infile_templ = """
 &control
@@ -261,7 +262,7 @@ K_POINTS automatic
             :func:`~pwtools.common.backup`
         """
         self.init_params_from_input(kwds)
-        FileIOCalculator.__init__(self, **kwds)
+        FileIOCalculator.__init__(self, **dict(kwds, label=self.parameters['label']))
 
         # ASE keywords
         if self.smearing is not None:
@@ -356,10 +357,11 @@ class Lammps(FileIOCalculator, CalculatorBase):
         pair_coeff='* * ./AlN.tersoff Al N',
         pair_style='tersoff',
         backup=False,
-        command=f"lmp < lmp.in > lmp.out",  # also writes 'log.lammps'
+        command="lmp < PREFIX.in > PREFIX.out",  # also writes 'log.lammps'
         directory='.',
         )
     implemented_properties = ['energy', 'forces', 'stress']
+    _legacy_default_command = default_parameters['command']
 
     infile_templ = """
 clear
@@ -391,7 +393,7 @@ run 0
         """
 
         self.init_params_from_input(kwds)
-        FileIOCalculator.__init__(self, **kwds)
+        FileIOCalculator.__init__(self, **dict(kwds, label=self.parameters['label']))
 
         self.infile_templ_keys = list(self.parameters.keys()) + \
             ['prefix']
-- 
2.43.0


From 590c8f067ee263305b56afaaea075336c71ce43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 087/107] fix: Pwscf calculator ignores the charge keyword

---
 src/pwtools/calculators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 97a50e7..4064084 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -203,6 +203,7 @@ class Pwscf(FileIOCalculator, CalculatorBase):
     ecutwfc = {ecutwfc},
     ecutrho = {ecutrho},
     nosym = .false.
+    tot_charge = {charge}
 /
     occupations = 'smearing'
     smearing = 'mv',
-- 
2.43.0


From 0124f3c1c9fec58d7fd124ded7b514428bb98d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 088/107] fix: set() of the calculators has no effect on the
 input files

---
 src/pwtools/calculators.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 4064084..1f606f8 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -109,6 +109,14 @@ class CalculatorBase:
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
 
+    def set(self, **kwds):
+        """Change parameters. Old results are not valid anymore then."""
+        changed = super().set(**kwds)
+        self.__dict__.update(changed)
+        if changed:
+            self.reset()
+        return changed
+
     def fill_infile_templ(self):
         """Replace all placeholders in ``self.infile_templ``. Use all keys in
         ``self.infile_templ_keys`` as possible placeholders."""
@@ -116,7 +124,7 @@ class CalculatorBase:
                                         in self.infile_templ_keys))
 
 
-class Pwscf(FileIOCalculator, CalculatorBase):
+class Pwscf(CalculatorBase, FileIOCalculator):
     """Pwscf (pw.x) calculator.
 
     ATM, we don't write a ``ase.calculators.calculator.Parameters`` class
@@ -289,6 +297,8 @@ K_POINTS automatic
         FileIOCalculator.write_input(self, atoms, properties,
                                      system_changes)
         struct = crys.atoms2struct(atoms)
+        if self.parameters['ecutrho'] is None:
+            self.ecutrho = 4.0*self.ecutwfc
         self.cell = common.str_arr(struct.cell)
         self.kpoints = pwscf.kpoints_str_pwin(kpts2mp(atoms, self.kpts))
         if isinstance(self.pp, str):
@@ -328,7 +338,7 @@ K_POINTS automatic
         self.results['stress'] = stress_pwtools2ase(st.stress)
 
 
-class Lammps(FileIOCalculator, CalculatorBase):
+class Lammps(CalculatorBase, FileIOCalculator):
     """
     LAMMPS calculator.
 
-- 
2.43.0


From 449c024e60d1d79330a086105c54b619ffff72c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 089/107] fix: Lammps calculator returns no forces if the label
 is not 'lmp'

---
 src/pwtools/calculators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 1f606f8..6fa4f88 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -40,7 +40,7 @@ import shutil
 
 import numpy as np
 
-from pwtools import common, pwscf, crys, io, constants
+from pwtools import common, pwscf, crys, io, constants, parse
 
 
 # silently fail at immport if ase is missing b/c it is not a dependency, fail
@@ -432,7 +432,10 @@ run 0
     def read_results(self):
         self.results = {}
         assert os.path.exists(self.outfile), "%s missing" %self.outfile
-        st = io.read_lammps_md_txt(self.outfile)[0]
+        pp = parse.LammpsTextMDOutputFile(self.outfile)
+        pp.dumpfilename = self.dumpfile
+        pp.symbolsfilename = self.structfile + '.symbols'
+        st = pp.get_traj()[0]
         # LAMMPS has its own orientation of the cell, rotate back to ours
         cell = self.atoms.get_cell()
         rot = np.dot(np.linalg.inv(crys.cc2cell(crys.cell2cc(cell))), cell)
-- 
2.43.0


From a32950767bcdc49b9646d56064469ada706bf1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 090/107] fix: readtxt fails for .gz files and leaves files
 open after errors

---
 src/pwtools/decorators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/decorators.py b/src/pwtools/decorators.py
index 1d29038..d48659d 100644
--- a/src/pwtools/decorators.py
+++ b/src/pwtools/decorators.py
@@ -47,14 +47,15 @@ def open_and_close(func):
                 _open = gzip.open
             else:
                 _open = open
-            fd = _open(fn, 'r')
+            fd = _open(fn, 'rt')
             # Files opened with gzip don't have a 'name' attr.
             if not hasattr(fd, 'name'):
                 fd.name = os.path.abspath(os.path.expanduser(fn))
             largs[0] = fd
-            ret = func(*tuple(largs), **kwargs)
-            largs[0].close()
-            return ret
+            try:
+                return func(*tuple(largs), **kwargs)
+            finally:
+                fd.close()
         else:
             # File object case. Don't explicitly test for types.FileType b/c
             # that does not if largs[0] is actually a [c]StringIO.StringIO
-- 
2.43.0


From b80ca3a9ce70c3507e7d3b799357b2e7d0d891cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 091/107] fix: viewers: close the descriptors of temporary
 files

---
 src/pwtools/visualize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/visualize.py b/src/pwtools/visualize.py
index 380bdc5..829214d 100644
--- a/src/pwtools/visualize.py
+++ b/src/pwtools/visualize.py
@@ -114,10 +114,11 @@ class ViewFactory:
             fd1,structfile = mkstemp(dir=tmpdir,
                                      prefix='pwtools_view_struct_',
                                      suffix=self.suffix)
-
+            os.close(fd1)
         if logfile is None:
             fd2,logfile = mkstemp(dir=tmpdir,
                                   prefix='pwtools_view_log_')
+            os.close(fd2)
         self.writer(structfile, obj)
         if disp:
             cmd_str = "%s %s %s 2>&1 | tee %s" %(self.cmd, options, structfile, logfile)
-- 
2.43.0


From c50b2883dff20971e6f9367611f903b59bd19ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 092/107] fix: viewers: bg=True and wait=False start the viewer
 instead of raising NotImplementedError

---
 src/pwtools/visualize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/visualize.py b/src/pwtools/visualize.py
index 829214d..e7c637b 100644
--- a/src/pwtools/visualize.py
+++ b/src/pwtools/visualize.py
@@ -35,6 +35,7 @@ command. Or you place these lines in a script and use::
 
 from tempfile import mkstemp
 import os
+import subprocess
 from pwtools import io, common
 
 
@@ -97,7 +98,7 @@ class ViewFactory:
         tmpdir : str, optional
             Directory where temp files are written to.
         wait : bool, optional
-            `wait` passed to common.system(), wait (or not) for command to exit
+            wait (or not) for command to exit
         bg : bool
             Background mode. If True then this is an alias for `wait=False` +
             `keepfiles=True`. The latter is needed b/c with just `wait=False`,
@@ -124,7 +125,10 @@ class ViewFactory:
             cmd_str = "%s %s %s 2>&1 | tee %s" %(self.cmd, options, structfile, logfile)
         else:
             cmd_str = "%s %s %s > %s 2>&1" %(self.cmd, options, structfile, logfile)
-        common.system(cmd_str, wait=wait)
+        if wait:
+            common.system(cmd_str)
+        else:
+            subprocess.Popen(cmd_str, shell=True)
         if not keepfiles:
             os.unlink(structfile)
             os.unlink(logfile)
-- 
2.43.0


From 6510baaf3d45aa65169061496a92e7d346771eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 093/107] fix: vmd_measure_gofr(slicefirst=True) used the cell
 of the first frame for all frames

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 3086b8e..5ce8a15 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1793,7 +1793,7 @@ def vmd_measure_gofr(traj, dr=0.05, rmax='auto', sel=['all','all'], first=0,
     if slicefirst:
         sl = slice(first, None if last == -1 else last+1, step)
         traj2 = Trajectory(coords_frac=traj.coords_frac[sl,...],
-                           cell=cell,
+                           cell=traj.cell[sl,...],
                            symbols=traj.symbols)
         first = 0
         last = -1
-- 
2.43.0


From f00b90866f34330d830a177cdc67f091e7f7fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 094/107] fix: vmd_measure_gofr: close the descriptors of
 temporary files

---
 src/pwtools/crys.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 5ce8a15..2d7b254 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1,5 +1,6 @@
 from math import acos, pi, sin, cos, sqrt
 import textwrap
+import os
 import time
 import tempfile
 import copy
@@ -1588,6 +1589,12 @@ def rpdf(trajs, dr=0.05, rmax='auto', amask=None, tmask=None,
     return out
 
 
+def _vmd_tempfile(tmpdir, prefix):
+    fd,fn = tempfile.mkstemp(dir=tmpdir, prefix=prefix, text=True)
+    os.close(fd)
+    return fn
+
+
 def call_vmd_measure_gofr(trajfn, dr=None, rmax=None, sel=['all','all'],
                           fntype='xsf', first=0, last=-1, step=1, usepbc=1,
                           datafn=None, scriptfn=None, logfn=None, tmpdir=None,
@@ -1687,11 +1694,11 @@ def call_vmd_measure_gofr(trajfn, dr=None, rmax=None, sel=['all','all'],
     if tmpdir is None:
         tmpdir = '/tmp'
     if datafn is None:
-        datafn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_data_', text=True)[1]
+        datafn = _vmd_tempfile(tmpdir, 'vmd_data_')
     if scriptfn is None:
-        scriptfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_script_', text=True)[1]
+        scriptfn = _vmd_tempfile(tmpdir, 'vmd_script_')
     if logfn is None:
-        logfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_log_', text=True)[1]
+        logfn = _vmd_tempfile(tmpdir, 'vmd_log_')
     dct = {}
     dct['trajfn'] = trajfn
     dct['fntype'] = fntype
@@ -1779,7 +1786,7 @@ def vmd_measure_gofr(traj, dr=0.05, rmax='auto', sel=['all','all'], first=0,
     # actually the bottleneck and makes this function slower.
     if tmpdir is None:
         tmpdir = '/tmp'
-    trajfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_xsf_', text=True)[1]
+    trajfn = _vmd_tempfile(tmpdir, 'vmd_xsf_')
     cell = traj.cell[0,...]
     cc = traj.cryst_const[0,...]
     if np.abs(cc[3:] - 90.0).max() > 0.1:
-- 
2.43.0


From 6f6d9b8b2fdacee19c1f5030aa2e00782b41236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 095/107] fix: mpl: axis line helpers need the axisartist host
 and parasite axes

---
 src/pwtools/mpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 38fd17f..aaa44f8 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -9,7 +9,7 @@ import numpy as np
 from pwtools import common, num
 
 try:
-    from mpl_toolkits.axes_grid1.parasite_axes import SubplotHost, \
+    from mpl_toolkits.axisartist.parasite_axes import SubplotHost, \
         ParasiteAxes
 except ImportError:
     warnings.warn("cannot import from mpl_toolkits.axes_grid")
-- 
2.43.0


From 653480b41a64d274ea70c442e11d9cae2c24baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 096/107] fix: clean_ax3d used attributes removed from
 matplotlib

---
 src/pwtools/mpl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index aaa44f8..717ca17 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -96,9 +96,9 @@ def fig_ax3d(clean=False, **kwds):
 def clean_ax3d(ax):
     """On ``Axes3DSubplot`` `ax`, set x,y,z pane color to white and remove
     grid."""
-    ax.w_xaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
-    ax.w_yaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
-    ax.w_zaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.xaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.yaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.zaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
     ax.grid(False)
 
 
-- 
2.43.0


From e543cc2315ccda537e2bf553d486c688b221ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 097/107] fix: color_ax(axis="both") as documented raised
 AttributeError

---
 src/pwtools/mpl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 717ca17..60b3841 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -140,8 +140,8 @@ def color_ax(ax, color, axis="y", spine_loc="left", spine_invisible=None):
     """
     # ax.xaxis
     # ax.yaxis
-    _axis = getattr(ax, f"{axis}axis")
-    _axis.label.set_color(color)
+    for name in "xy" if axis == "both" else axis:
+        getattr(ax, f"{name}axis").label.set_color(color)
     # both: major and minor ticks
     ax.tick_params(axis=axis, colors=color, which="both")
     if spine_loc is not None:
-- 
2.43.0


From 4b73abdb07e8a88e14bfc222491f61349e3d15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 098/107] fix: cut-cp2k.sh: cut files which hold only each n-th
 step, without xyz positions, in folders with blanks

---
 bin/cut-cp2k.sh | 60 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/bin/cut-cp2k.sh b/bin/cut-cp2k.sh
index bd0f768..3b9e088 100755
--- a/bin/cut-cp2k.sh
+++ b/bin/cut-cp2k.sh
@@ -97,9 +97,9 @@ file_vel=$dr/PROJECT-vel-1.xyz
 if [ $# -eq 2 ]; then
     step_to_cut=$2
 elif [ $# -eq 1 ]; then
-    [ -f $file_restart ] || err "$file_restart not found, cannot determine step_to_cut"
+    [ -f "$file_restart" ] || err "$file_restart not found, cannot determine step_to_cut"
     # last restart file written at step N
-    last_step=$(awk '/STEP_START_VAL/ {print $2}' $file_restart | tr -d ' ')
+    last_step=$(awk '/STEP_START_VAL/ {print $2}' "$file_restart" | tr -d ' ')
     # cut all steps N+1 ... end, restart run starts with step N+1
     step_to_cut=$(echo "$last_step + 1" | bc)
 else
@@ -109,25 +109,43 @@ fi
 echo "dir   =   $dr"
 echo "step  =   $step_to_cut"
 
-for fn in $file_cell $file_ener $file_stress; do
-    if [ -f $fn ]; then
-        cmd="sed -i.$bakname -re '/^\s+$step_to_cut\s+/,\$d' $fn"
-        echo $fn
-        $simulate && echo "    $cmd" || eval $cmd
-    fi
-done
+# Print file up to the first time step >= $step_to_cut. Files may hold only each
+# n-th step. The step number is the first column or, in xyz files, in the 2nd
+# line of each time step ("i =  8401, ...").
+cut_file(){
+    awk -v step="$step_to_cut" -v xyz="$2" '
+    {
+        nr = ""
+        if (!xyz) {
+            if ($1 ~ /^[0-9]+$/) nr = $1
+        }
+        else if ($1 == "i" && $2 == "=") nr = $3
+        if (nr != "" && nr + 0 >= step + 0) {
+            cut = 1
+            exit
+        }
+        if (!xyz) print
+        else {
+            if (NR > 1) print last
+            last = $0
+        }
+    }
+    END { if (!cut && xyz && NR > 0) print last }' "$1"
+}
 
-natoms=$(head -n1 $file_pos | tr -d ' ')
-for fn in $file_frc $file_pos $file_vel; do
-    if [ -f $fn ]; then
-        # Cut file, then delete last line, but only if it really contains only
-        # one integer = $natoms.
-        cmd="sed -i.$bakname -re '/i =\s+$step_to_cut,\s+/,\$d' $fn; \
-             if tail -n1 $fn | egrep -q '[ ]+$natoms[ ]*\$'; then \
-                 sed -i -re '\$d' $fn; \
-             fi"
-        echo $fn
-        $simulate && echo "    $cmd" || eval $cmd
+for fn in "$file_cell" "$file_ener" "$file_stress" \
+          "$file_frc" "$file_pos" "$file_vel"; do
+    if [ -f "$fn" ]; then
+        echo "$fn"
+        case "$fn" in
+            *.xyz) xyz=1;;
+            *) xyz=0;;
+        esac
+        if $simulate; then
+            echo "    cut from step $step_to_cut, backup: $fn.$bakname"
+        else
+            cp -p "$fn" "$fn.$bakname" && cut_file "$fn.$bakname" $xyz > "$fn" \
+                || err "cannot cut $fn"
+        fi
     fi
 done
-
-- 
2.43.0


From 953942b25da99b4fc4c0c9978fac07abf0c87b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 099/107] fix: cut-cpmd.sh: cut files which hold only each n-th
 step, match whole step numbers, keep atoms of the last step

---
 bin/cut-cpmd.sh | 68 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/bin/cut-cpmd.sh b/bin/cut-cpmd.sh
index c3ac7ac..cbb019a 100755
--- a/bin/cut-cpmd.sh
+++ b/bin/cut-cpmd.sh
@@ -2,7 +2,6 @@
 
 prog=$(basename $0)
 simulate=false
-sed_opts="-r -e"
 inplace=true
 bakname=bak
 
@@ -28,7 +27,7 @@ $prog [-hs] <dir> <step>
 options:
 --------
 -s : simulate
---not-inplace : don't use ``sed -i.$bakname ...``, use if YKWYAD
+--not-inplace : don't change files, print the result instead
 
 example
 -------
@@ -83,29 +82,54 @@ dr=$1
 [ -d "$dr" ] || err "not a dir: $dr"
 step=$2
 
-while read conf; do
-    fn=$(echo "$conf" | awk -F '@@' '{print $1}')
-    sedstr=$(echo "$conf" | awk -F '@@' '{print $2}')
-    _bakname=$(echo "$conf" | awk -F '@@' '{print $3}')
-    [ -n "$_bakname" ] && bakname=$_bakname
-    if $inplace; then
-        cmd="sed -i.$bakname $sed_opts '$sedstr' $fn"
-    else
-        cmd="sed $sed_opts '$sedstr' $fn"
-    fi
-    if [ -f $fn ]; then
+# Print file up to the first time step >= $step. Files may hold only each n-th
+# step. The step number is the first column or follows the text in pat. In
+# TRAJEC.xyz, that text is in the 2nd line of each time step.
+cut_file(){
+    awk -v step="$step" -v pat="$2" -v nskip="$3" '
+    {
+        nr = ""
+        if (pat == "") {
+            if ($1 ~ /^[0-9]+$/) nr = $1
+        }
+        else if ($0 ~ pat) {
+            nr = $0
+            sub(".*" pat, "", nr)
+        }
+        if (nr != "" && nr + 0 >= step + 0) {
+            cut = 1
+            exit
+        }
+        if (nskip == 0) print
+        else {
+            if (NR > 1) print last
+            last = $0
+        }
+    }
+    END { if (!cut && nskip > 0 && NR > 0) print last }' "$1"
+}
+
+while IFS='@' read fn pat nskip; do
+    fn=$dr/$fn
+    if [ -f "$fn" ]; then
         echo ">> $fn <<"
-        echo "  $cmd"
-        $simulate || eval $cmd
+        if $inplace; then
+            echo "  cut from step $step, backup: $fn.$bakname"
+            $simulate && continue
+            cp -p "$fn" "$fn.$bakname" && cut_file "$fn.$bakname" "$pat" $nskip > "$fn" \
+                || err "cannot cut $fn"
+        else
+            echo "  cut from step $step"
+            $simulate || cut_file "$fn" "$pat" $nskip
+        fi
     else
         msg "not found: $fn"
     fi
 done << EOF
-$dr/CELL@@/.*CELL PARAMETERS.*Step.*$step.*/,$ d
-$dr/ENERGIES@@/^\\\s+$step\\\s.*/,$ d
-$dr/STRESS@@/.*TOTAL STRESS.*Step.*$step.*/,$ d
-$dr/TRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
-$dr/FTRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
-$dr/TRAJEC.xyz@@/^\\\s+STEP:\\\s+$step.*/,$ d
-$dr/TRAJEC.xyz@@$,$ d@@bak2
+CELL@CELL PARAMETERS.*Step:? +@0
+ENERGIES@@0
+STRESS@TOTAL STRESS.*Step:? +@0
+TRAJECTORY@@0
+FTRAJECTORY@@0
+TRAJEC.xyz@STEP:? +@1
 EOF
-- 
2.43.0


From 2814141d59f3b746f36a69569b57df9cd3383eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 100/107] fix: cif2any.py: ABINIT znucl and pseudopotential
 order are per type, not per atom

---
 bin/cif2any.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/cif2any.py b/bin/cif2any.py
index a5001ad..756cf9e 100755
--- a/bin/cif2any.py
+++ b/bin/cif2any.py
@@ -133,13 +133,13 @@ print(bar)
 print("natom %i" %struct.natoms)
 print("ntypat %i" %struct.ntypat)
 print("typat %s" %seq2str(struct.typat))
-print("znucl %s" %seq2str(struct.znucl))
+print("znucl %s" %seq2str(struct.znucl_unique))
 print("acell %s" %str_arr(struct.cryst_const[:3]))
 print("angdeg %s" %str_arr(struct.cryst_const[3:]))
 print("xred\n%s" %str_arr(struct.coords_frac))
 print("pseudopotential order:\n%s" %"\n".join(["%s %i" %(sym, zz) for sym,zz in
                                                zip(struct.symbols_unique,
-                                                   struct.znucl)]))
+                                                   struct.znucl_unique)]))
 
 #-------------------------------------------------------------------------------
 # CPMD
-- 
2.43.0


From 9253200d0ffb3a6d0a4b0675fd26e6a8cda04817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 101/107] fix: coord_trans with cells not in native byte order
 or not aligned

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 2d7b254..091e206 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -959,7 +959,9 @@ def _trans(coords, old, new):
                        "last dim of `coords` must match first dim"
                        " of `old` and `new`")
     # The equation works for ``old.T`` and ``new.T`` = columns.
-    return np.dot(coords, np.dot(inv(new.T), old.T).T)
+    # np.array: inv() gives wrong numbers or crashes for arrays which are not in
+    # native byte order.
+    return np.dot(coords, np.dot(inv(np.array(new.T, dtype=float)), old.T).T)
 
 
 def coord_trans3d(coords, old=None, new=None, copy=True, axis=-1, timeaxis=0):
-- 
2.43.0


From b53bc7a97ddd900af93d73a06b11ee91185f9a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 102/107] fix: minimum image convention and rpdf for integer
 coordinates

---
 src/pwtools/crys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 091e206..5826d7d 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1036,7 +1036,10 @@ def min_image_convention(sij, copy=False):
     -------
     sij in-place modified or copy
     """
-    sij = sij.copy() if copy else sij
+    if sij.dtype.kind in 'biu':
+        sij = sij.astype(float)
+    elif copy:
+        sij = sij.copy()
     mask = sij >= 0.5
     while mask.any():
         sij[mask] -= 1.0
-- 
2.43.0


From f60cbddfaed1e479203a00e06431f27505412fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 103/107] fix: align_cart with vectors not in native byte order
 or not aligned

---
 src/pwtools/crys.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 5826d7d..0d25f82 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -7,7 +7,9 @@ import copy
 import itertools
 
 import numpy as np
-from scipy.linalg import inv
+# scipy.linalg.inv() gives wrong numbers or crashes for arrays which are not in
+# native byte order.
+from numpy.linalg import inv
 
 from pwtools import common, signal, num, atomic_data, constants, _flib
 from pwtools.common import assert_cond
@@ -959,9 +961,7 @@ def _trans(coords, old, new):
                        "last dim of `coords` must match first dim"
                        " of `old` and `new`")
     # The equation works for ``old.T`` and ``new.T`` = columns.
-    # np.array: inv() gives wrong numbers or crashes for arrays which are not in
-    # native byte order.
-    return np.dot(coords, np.dot(inv(np.array(new.T, dtype=float)), old.T).T)
+    return np.dot(coords, np.dot(inv(new.T), old.T).T)
 
 
 def coord_trans3d(coords, old=None, new=None, copy=True, axis=-1, timeaxis=0):
-- 
2.43.0


From 52cee8c77af178a7af4221e70044ef3db3c7a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 104/107] fix: Gibbs.set_fitfunc('1d-ax', ..) had no effect
 after the first calculation

---
 src/pwtools/thermo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index c45cf9f..45b4397 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -497,6 +497,9 @@ class Gibbs:
         """
         assert what in self.fitfunc, ("unknown key: '%s'" %what)
         self.fitfunc[what] = func
+        if what == '1d-ax':
+            # fits made with the old function, see _set_fitax()
+            self.fitax = None
 
     @staticmethod
     def _default_fit_1d_G(x, y):
-- 
2.43.0


From 662f71fcc7051a85b7ec390a4b3ec7adc06dba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:04 +0000
Subject: [PATCH 105/107] fix: nearest_neighbors_struct with negative idx
 dropped the central atom, fullout=True failed

---
 src/pwtools/crys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 0d25f82..482b3ef 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2118,9 +2118,9 @@ def nearest_neighbors_struct(struct, **kwds):
     >>> st = crys.nearest_neighbors_struct(struct, cutoff=3.3, skip='H')
     >>> visualize.view_avogadro(st)
     """
-    ni = nearest_neighbors(struct, **kwds)
-    # include `idx` atom
-    ni = np.concatenate((ni, [kwds['idx']]))
+    ni = nearest_neighbors(struct, **dict(kwds, fullout=False))
+    # include `idx` atom, which may be negative
+    ni = np.concatenate((ni, [np.arange(struct.natoms)[kwds['idx']]]))
     msk = num.match_mask(np.arange(struct.natoms), ni)
     new_struct = Structure(coords_frac=struct.coords_frac[msk,:],
                            cell=struct.cell,
-- 
2.43.0


From 71d9bffa1a132696c52a3e08bbc971403d18b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:24 +0000
Subject: [PATCH 106/107] fix: get_min() of PolyFit and Interpol2D ended off
 the minimum when starting near an axis

---
 src/pwtools/num.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index bd962e1..17d4240 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -716,6 +716,28 @@ def sum(arr, axis=None, keepdims=False, **kwds):
         return np.sum(arr, axis=tuple(tosum), **kwds)
 
 
+def _initial_simplex(x0, points):
+    """Start simplex for ``optimize.fmin()`` around `x0`.
+
+    The default is 5% of each coordinate of `x0`. With a coordinate near zero,
+    the simplex is nearly flat and ``fmin()`` may end somewhere else than in
+    the minimum. Here, use 5% of the extent of the data `points` instead.
+
+    Parameters
+    ----------
+    x0 : sequence (ndim,)
+    points : 2d array (npoints, ndim)
+
+    Returns
+    -------
+    2d array (ndim+1, ndim)
+    """
+    x0 = np.asarray(x0, dtype=float).ravel()
+    step = 0.05 * np.ptp(points, axis=0)
+    step[step == 0] = 0.00025
+    return np.vstack((x0, x0 + np.diag(step)))
+
+
 class Interpol2D:
     """Common 2D interpolator API.
 
@@ -971,6 +993,7 @@ class Interpol2D:
         if x0 is None:
             idx0 = self.values.argmin()
             x0 = [self.xx[idx0], self.yy[idx0]]
+        _kwds.setdefault("initial_simplex", _initial_simplex(x0, self.points))
         xopt = optimize.fmin(self, x0, **_kwds)
         return xopt
 
@@ -1508,6 +1531,7 @@ class PolyFit:
         if x0 is None:
             idx = self.values.argmin()
             x0 = self.points[idx, ...]
+        _kwds.setdefault("initial_simplex", _initial_simplex(x0, self.points))
         xopt = optimize.fmin(self, x0, **_kwds)
         return xopt
 
-- 
2.43.0


From 19e175123c3e5e8f05a607ba76326fbb94c78b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:06 +0000
Subject: [PATCH 107/107] fix: ParameterStudy failed after writing all files
 when a parameter had integer and float values

---
 src/pwtools/batch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 34c8b7d..12f0c0d 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -600,6 +600,9 @@ class ParameterStudy:
         typed_keys = set(key for key, sqltype in raw_header if sqltype != 'NULL')
         header = [(key, sqltype) for key, sqltype in set(raw_header) \
             if sqltype != 'NULL' or key not in typed_keys]
+        # a parameter with integer and float values: one REAL column
+        header = [(key, sqltype) for key, sqltype in header \
+            if sqltype != 'INTEGER' or (key, 'REAL') not in header]
         if have_new_db:
             sqldb.create_table(header)
         else:
-- 
2.43.0

