From 8bab28159e05b3add7266ed0056dd8ebea17df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 01/28] fix: tree search iterated children with dict.iteritems,
 absent in Python 3

---
 ababe/mlearn/mcts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ababe/mlearn/mcts.py b/ababe/mlearn/mcts.py
index de30b0e..104d4c9 100644
--- a/ababe/mlearn/mcts.py
+++ b/ababe/mlearn/mcts.py
@@ -43,7 +43,7 @@ class TreeNode(object):
         Returns:
         A tuple of (action, next_node)
         """
-        return max(self._children.iteritems(), key=lambda act_node: act_node[1].get_value())
+        return max(self._children.items(), key=lambda act_node: act_node[1].get_value())
 
     def update(self, leaf_value, c_puct):
         """Update node values from leaf evaluation.
@@ -203,7 +203,7 @@ class MCTS(object):
 
         # chosen action is the *most visited child*, not the highest-value one
         # (they are the same as self._n_playout gets large).
-        return max(self._root._children.iteritems(), key=lambda act_node: act_node[1]._n_visits)[0]
+        return max(self._root._children.items(), key=lambda act_node: act_node[1]._n_visits)[0]
 
     def update_with_move(self, last_move):
         """Step forward in the tree, keeping everything we already know about the subtree, assuming
-- 
2.43.0


From 7a89a0aca14f6dea6b28967e91dd860715614e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 02/28] fix: space group restriction read a digit of the symbol
 as the group number

---
 ababe/stru/restriction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/restriction.py b/ababe/stru/restriction.py
index 8f6ba94..ef88d38 100644
--- a/ababe/stru/restriction.py
+++ b/ababe/stru/restriction.py
@@ -56,7 +56,7 @@ class SpaceGroupRestriction(Restriction):
 
     def is_satisfied(self, gcell):
         spg = gcell.get_spacegroup()    # output: 'Pm (6)'
-        spg_num = int(re.findall('\d+', spg)[0])
+        spg_num = int(re.findall(r'\((\d+)\)', spg)[-1])
         is_ok = spg_num in self.l_sp
 
         return is_ok
-- 
2.43.0


From c014c4c7646d8e07fc47977363ed7e6a47dcd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 03/28] fix: SitesGrid.deepCopy shared its rows with the
 original

---
 ababe/stru/scaffold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 2c331c2..32e3a9d 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -68,7 +68,7 @@ class SitesGrid(object):
 
     def deepCopy(self):
         g = SitesGrid(self._sites)
-        g._sites = [x[:][:] for x in self._sites]
+        g._sites = [[row[:] for row in x] for x in self._sites]
         return g
 
     def to_array(self):
-- 
2.43.0


From d0a327b816ecc6243b95f5da181d7168cb954627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 04/28] fix: SitesGrid2d.from_array called a method Specie does
 not have

---
 ababe/stru/scaffold2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold2d.py b/ababe/stru/scaffold2d.py
index 53270c7..3bef07a 100644
--- a/ababe/stru/scaffold2d.py
+++ b/ababe/stru/scaffold2d.py
@@ -39,7 +39,7 @@ class SitesGrid2d(object):
 
     @classmethod
     def from_array(cls, arr):
-        mfunc = np.vectorize(lambda n: Specie.to_sp(n))
+        mfunc = np.vectorize(lambda n: Specie.from_num(n))
         sarr = mfunc(arr)
         return cls(sarr.tolist())
 
-- 
2.43.0


From fdeaa6ecb7693451a816b409586c4918a5802dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 05/28] fix: get_neighbors failed or returned bare indices for
 fewer than two neighbours

---
 ababe/stru/scaffold.py   | 6 ++++--
 ababe/stru/scaffold2d.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 32e3a9d..ac46400 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -236,10 +236,12 @@ class CStru(object):
         del coor_map[pos]
 
         points = list(coor_map.values())
+        if not points:
+            return set()
         points_tree = cKDTree(points)
         ind = points_tree.query_ball_point(point, delta)
-        neighbors = itemgetter(*ind)(list(coor_map.keys()))
-        return set(neighbors)
+        keys = list(coor_map.keys())
+        return set(keys[i] for i in ind)
 
 
 class GeneralCell(object):
diff --git a/ababe/stru/scaffold2d.py b/ababe/stru/scaffold2d.py
index 3bef07a..30a1646 100644
--- a/ababe/stru/scaffold2d.py
+++ b/ababe/stru/scaffold2d.py
@@ -89,7 +89,9 @@ class CStru2d(object):
         del coor_map[pos]
 
         points = list(coor_map.values())
+        if not points:
+            return set()
         points_tree = cKDTree(points)
         ind = points_tree.query_ball_point(point, delta)
-        neighbors = itemgetter(*ind)(list(coor_map.keys()))
-        return set(neighbors)
\ No newline at end of file
+        keys = list(coor_map.keys())
+        return set(keys[i] for i in ind)
\ No newline at end of file
-- 
2.43.0


From c547daa089b0e910a083001a224835faea12d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 06/28] fix: CStru.get_neighbors mixed up the grid axes of
 non-cubic grids

---
 ababe/stru/scaffold.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index ac46400..08a9bc9 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -224,9 +224,9 @@ class CStru(object):
             return tuple(coor)
 
         def p_gen():
-            for z in range(self.depth):
-                for x in range(self.width):
-                    for y in range(self.length):
+            for x in range(self.depth):
+                for y in range(self.width):
+                    for z in range(self.length):
                         yield(x, y, z)
 
         point = _pos2coor(pos)
-- 
2.43.0


From c3b8816c3fea2334f094bfff4351593acf5b3b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 07/28] fix: symmetry queries ignored numbers assigned to a
 GeneralCell

---
 ababe/stru/scaffold.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 08a9bc9..c540764 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -304,6 +304,7 @@ class GeneralCell(object):
     @numbers.setter
     def numbers(self, arr_numbers):
         self._numbers = arr_numbers
+        self._spg_cell = (self._lattice, self._positions, self._numbers)
 
     @property
     def comment(self):
-- 
2.43.0


From d29c1f71aba3b1bd398cbffd5569c42201180ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 08/28] fix: comparing ModifiedCells with different numbers of
 sites raised or broadcast

---
 ababe/stru/scaffold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index c540764..363128f 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -510,7 +510,7 @@ class ModifiedCell(MutableSequence):
 
     def __eq__(self, other):
         is_equ = False
-        if np.allclose(self._lattice, other._lattice):
+        if len(self) == len(other) and np.allclose(self._lattice, other._lattice):
             if np.allclose(self.positions, other.positions) and np.allclose(self.numbers, other.numbers):
                 is_equ = True
 
-- 
2.43.0


From d7633a1793f9ad74647290fd0878450649ae554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 09/28] fix: superlattices of different volume compared equal

---
 ababe/stru/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ababe/stru/grid.py b/ababe/stru/grid.py
index 6f2adf1..c8ec7db 100644
--- a/ababe/stru/grid.py
+++ b/ababe/stru/grid.py
@@ -34,6 +34,9 @@ class SuperLatticeCell(object):
         # H_j * R.T ^-1 * H ^-1 should be an int matrix
         inv = np.linalg.inv
         mul = np.matmul
+        det = np.linalg.det
+        if round(abs(det(self.lat_coeff))) != round(abs(det(other.lat_coeff))):
+            return False
         for r in self.sym['rotations']:
             h_inv = mul(other.lat_coeff,
                         inv(r.T))
-- 
2.43.0


From 26429195c4aa11ec8733e2f51a6214248aebb61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 10/28] fix: gen_nodup_cstru passed an inexact float count to
 the progress bar

---
 ababe/stru/sogen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index ed64ca2..c3d7983 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -330,7 +330,7 @@ def gen_nodup_cstru(lattice, sea_ele, size, speckle, num):
 
     # Add the progress bar when looping
     from scipy.special import comb
-    number_of_structures = comb((d*w*l), num)
+    number_of_structures = comb((d*w*l), num, exact=True)
     bar = ProgressBar(max_value=number_of_structures)
 
     isoset = set()
-- 
2.43.0


From 7d3ad48ce4e8393791031779e35214df85d076a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 11/28] fix: buckyball structures were lost to 32-bit
 identifier collisions

---
 ababe/stru/buckyball.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/buckyball.py b/ababe/stru/buckyball.py
index 946bf6f..817d6b3 100644
--- a/ababe/stru/buckyball.py
+++ b/ababe/stru/buckyball.py
@@ -167,7 +167,7 @@ class Structure(object):
         as an identifier of diffrent structures, can be move to
         outerside class.
         """
-        num_hash = xxhash.xxh32(numbers).intdigest()
+        num_hash = xxhash.xxh64(numbers).intdigest()
         return num_hash
 
     def _update_isoset(self, isoset, atoms, sym_perm):
-- 
2.43.0


From e8f1a43af799ca7118a3acc4c139b072a89336b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 12/28] fix: symmetry permutations were wrong near coordinate
 rounding boundaries

---
 ababe/stru/scaffold.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 363128f..c5f4ae3 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -353,13 +353,17 @@ class GeneralCell(object):
         Represented as a table.
         """
         sym_perm = []
-        numbers = [i for i in range(self.num_count)]
         sym_mat = spglib.get_symmetry(self._spg_cell, symprec=self.symprec)
         ops = [(r, t) for r, t in zip(sym_mat['rotations'],
                                       sym_mat['translations'])]
         for r, t in ops:
             pos_new = np.transpose(np.matmul(r, self._positions.T)) + t
-            perm = self._get_new_id_seq(pos_new, numbers)
+            # the image lying on each site; sorting rounded coordinates
+            # mismatches sites that are close to a rounding boundary
+            diff = pos_new[np.newaxis, :, :] - self._positions[:, np.newaxis, :]
+            diff -= np.rint(diff)
+            dist = np.sum(np.matmul(diff, self._lattice)**2, axis=2)
+            perm = np.argmin(dist, axis=1)
             sym_perm.append(perm)
 
         return sym_perm
-- 
2.43.0


From 8cf8eb7e09cb165629a06d23b57e3d78c1b895d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 13/28] fix: minimum distance restriction missed periodic
 images and failed without target atoms

---
 ababe/stru/restriction.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/ababe/stru/restriction.py b/ababe/stru/restriction.py
index ef88d38..2247aaf 100644
--- a/ababe/stru/restriction.py
+++ b/ababe/stru/restriction.py
@@ -1,6 +1,6 @@
 # coding: utf-8
 # Distributed under the terms of the MIT License.
-from scipy.spatial.distance import pdist
+from itertools import product
 import numpy as np
 import re
 
@@ -31,18 +31,22 @@ class MinDistanceRestriction(Restriction):
         self.target_dist = tr[1]
 
     def is_satisfied(self, gcell):
-        scale = np.array([[2, 0, 0],
-                          [0, 2, 0],
-                          [0, 0, 2]])
-        super_gcell = gcell.supercell(scale)
-        target_cart = super_gcell.get_cartesian(ele=self.target_ele)
-        # target_cart is a np array of target element's
-        # cartesian coordinates
-        mindist = np.min(pdist(target_cart))
-        is_ok = mindist > self.target_dist
-        # import pdb
-        # pdb.set_trace()
-        return is_ok
+        frac = gcell.positions[gcell.numbers == self.target_ele.Z]
+        frac = frac - np.floor(frac)
+        # enough periodic images along every axis for any cell shape
+        heights = 1 / np.linalg.norm(np.linalg.inv(gcell.lattice), axis=0)
+        nimg = [int(np.ceil(self.target_dist / h)) for h in heights]
+        images = sorted(product(*[range(-n, n + 1) for n in nimg]),
+                        key=lambda t: sum(map(abs, t)))
+        for trans in images:
+            diff = frac[:, np.newaxis, :] + trans - frac[np.newaxis, :, :]
+            dist = np.linalg.norm(np.matmul(diff, gcell.lattice), axis=2)
+            if not any(trans):
+                # a site is not its own neighbor
+                np.fill_diagonal(dist, np.inf)
+            if np.any(dist <= self.target_dist):
+                return False
+        return True
 
 class SpaceGroupRestriction(Restriction):
     """
-- 
2.43.0


From ac77b6d05e5ed4bca62d9283eedc262b9b9613a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 14/28] fix: sphere search missed periodic images in skewed
 cells

---
 ababe/stru/scaffold.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index c5f4ae3..088821a 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -610,19 +610,14 @@ class ModifiedCell(MutableSequence):
             Decided whether a position(frac) inside a
             distance restriction.
         """
-        from scipy.spatial.distance import euclidean as euclidean_discance
-        from itertools import product
-
-        cart_cent = self.get_cartesian_from_frac(center)
-        trans = np.array([i for i in product([-1, 0, 1], repeat=3)])
-        allpos = pos + trans
-        for p in allpos:
-            cart_p = self.get_cartesian_from_frac(p)
-            if euclidean_discance(cart_p, cart_cent) < r:
-                return True
-                break
-
-        return False
+        diff = np.array(pos) - np.array(center)
+        diff = diff - np.rint(diff)
+        # enough periodic images along every axis for any cell shape
+        heights = 1 / np.linalg.norm(np.linalg.inv(self.lattice), axis=0)
+        nimg = [int(r / h + 0.5) for h in heights]
+        trans = np.array([i for i in product(*[range(-n, n + 1) for n in nimg])])
+        cart = self.get_cartesian_from_frac(diff + trans)
+        return bool(np.any(np.linalg.norm(cart, axis=1) < r))
 
     def append_site(self, site):
         self.append(site)
-- 
2.43.0


From abe074239f1e53af1f8c383e1e8f3bc91919cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 15/28] fix: structures overwrote each other when random file
 names collided

---
 ababe/cmdline/apps/occupybiter.py  | 11 +++++++----
 ababe/cmdline/apps/occupymaker.py  | 11 +++++++----
 ababe/cmdline/apps/superlattice.py | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/ababe/cmdline/apps/occupybiter.py b/ababe/cmdline/apps/occupybiter.py
index 7759451..5089477 100644
--- a/ababe/cmdline/apps/occupybiter.py
+++ b/ababe/cmdline/apps/occupybiter.py
@@ -96,8 +96,11 @@ class App(AppModel):
                 if self.refined:
                     c = c.get_refined_pcell()
                 out = GeneralIO(c)
-                f_suffix = ''.join(random.choices(string.ascii_uppercase
-                                                 + string.digits, k=4))
-                ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
-                lastpath = os.path.join(out_dir, ofname)
+                while True:
+                    f_suffix = ''.join(random.choices(string.ascii_uppercase
+                                                     + string.digits, k=4))
+                    ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
+                    lastpath = os.path.join(out_dir, ofname)
+                    if not os.path.exists(lastpath):
+                        break
                 out.write_file(lastpath)
diff --git a/ababe/cmdline/apps/occupymaker.py b/ababe/cmdline/apps/occupymaker.py
index 67e67ba..6929c26 100644
--- a/ababe/cmdline/apps/occupymaker.py
+++ b/ababe/cmdline/apps/occupymaker.py
@@ -87,8 +87,11 @@ class App(AppModel):
                         c = c.get_refined_pcell()
                     out = GeneralIO(c)
 
-                    f_suffix = ''.join(random.choices(string.ascii_uppercase
-                                                      + string.digits, k=4))
-                    ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
-                    lastpath = os.path.join(out_dir, ofname)
+                    while True:
+                        f_suffix = ''.join(random.choices(string.ascii_uppercase
+                                                          + string.digits, k=4))
+                        ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
+                        lastpath = os.path.join(out_dir, ofname)
+                        if not os.path.exists(lastpath):
+                            break
                     out.write_file(lastpath)
diff --git a/ababe/cmdline/apps/superlattice.py b/ababe/cmdline/apps/superlattice.py
index cc9000f..0a55c63 100644
--- a/ababe/cmdline/apps/superlattice.py
+++ b/ababe/cmdline/apps/superlattice.py
@@ -44,13 +44,16 @@ class App(AppModel):
             os.makedirs(suplat_dir)
 
         for hnf in self.hnfs:
-            rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                               + string.digits, k=4))
             sl_origin = hnf.to_general_cell()
             sl = sl_origin.get_shaped_cell()
 
             out = GeneralIO(sl)
 
-            ofname = "SUPLAT_{:}_{:}.{:}".format(self.v, rd_suffix, self.outmode)
-            lastpath = os.path.join(suplat_dir, ofname)
+            while True:
+                rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                                   + string.digits, k=4))
+                ofname = "SUPLAT_{:}_{:}.{:}".format(self.v, rd_suffix, self.outmode)
+                lastpath = os.path.join(suplat_dir, ofname)
+                if not os.path.exists(lastpath):
+                    break
             out.write_file(lastpath)
-- 
2.43.0


From 872bbbb45d98170480faf69eb2e14ce2538d70d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:11 +0000
Subject: [PATCH 16/28] fix: occupation commands failed when their output
 directory name was taken

---
 ababe/cmdline/apps/occupybiter.py  | 19 +++++++++----------
 ababe/cmdline/apps/occupymaker.py  | 19 +++++++++----------
 ababe/cmdline/apps/occupymakert.py | 19 +++++++++----------
 ababe/cmdline/apps/occupytenter.py | 19 +++++++++----------
 4 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/ababe/cmdline/apps/occupybiter.py b/ababe/cmdline/apps/occupybiter.py
index 5089477..31c60d1 100644
--- a/ababe/cmdline/apps/occupybiter.py
+++ b/ababe/cmdline/apps/occupybiter.py
@@ -61,17 +61,16 @@ class App(AppModel):
         import random
         import string
 
-        rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                           + string.digits, k=5))
         working_path = os.getcwd()
-        out_dir = os.path.join(working_path,
-                               'STRUCTURES_{0:}_{1:}'.format(self.comment,
-                                                              rd_suffix))
-        if not os.path.exists(out_dir):
-            os.makedirs(out_dir)
-        else:
-            shutil.rmtree(out_dir)
-            os.makedirs(out_dir)
+        while True:
+            rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                               + string.digits, k=5))
+            out_dir = os.path.join(working_path,
+                                   'STRUCTURES_{0:}_{1:}'.format(self.comment,
+                                                                  rd_suffix))
+            if not os.path.exists(out_dir):
+                break
+        os.makedirs(out_dir)
 
         ogg = OccupyGenerator(self.cell)
         g = ogg.gen_nodup_of_ele(self.ele, self.n, self.speckle)
diff --git a/ababe/cmdline/apps/occupymaker.py b/ababe/cmdline/apps/occupymaker.py
index 6929c26..1d2428d 100644
--- a/ababe/cmdline/apps/occupymaker.py
+++ b/ababe/cmdline/apps/occupymaker.py
@@ -55,17 +55,16 @@ class App(AppModel):
         import random
         import string
 
-        rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                           + string.digits, k=4))
         working_path = os.getcwd()
-        out_dir = os.path.join(working_path,
-                                   'STRUCTURES_{0:}_{1:}'.format(self.comment,
-                                                              rd_suffix))
-        if not os.path.exists(out_dir):
-            os.makedirs(out_dir)
-        else:
-            shutil.rmtree(out_dir)
-            os.makedirs(out_dir)
+        while True:
+            rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                               + string.digits, k=4))
+            out_dir = os.path.join(working_path,
+                                       'STRUCTURES_{0:}_{1:}'.format(self.comment,
+                                                                  rd_suffix))
+            if not os.path.exists(out_dir):
+                break
+        os.makedirs(out_dir)
 
         ogg = OccupyGenerator(self.cell)
         gg = ogg.all_speckle_gen_of_ele(self.nmax, self.ele, self.speckle)
diff --git a/ababe/cmdline/apps/occupymakert.py b/ababe/cmdline/apps/occupymakert.py
index 48d3e3e..05fc54d 100644
--- a/ababe/cmdline/apps/occupymakert.py
+++ b/ababe/cmdline/apps/occupymakert.py
@@ -64,17 +64,16 @@ class App(AppModel):
         import string
         import tempfile
 
-        rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                           + string.digits, k=5))
         working_path = os.getcwd()
-        poscars_dir = os.path.join(working_path,
-                                   'STRUCTURES_{0:}_{1:}'.format(self.comment,
-                                                              rd_suffix))
-        if not os.path.exists(poscars_dir):
-            os.makedirs(poscars_dir)
-        else:
-            shutil.rmtree(poscars_dir)
-            os.makedirs(poscars_dir)
+        while True:
+            rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                               + string.digits, k=5))
+            poscars_dir = os.path.join(working_path,
+                                       'STRUCTURES_{0:}_{1:}'.format(self.comment,
+                                                                  rd_suffix))
+            if not os.path.exists(poscars_dir):
+                break
+        os.makedirs(poscars_dir)
 
         ogg = OccupyGenerator(self.cell)
 
diff --git a/ababe/cmdline/apps/occupytenter.py b/ababe/cmdline/apps/occupytenter.py
index d67e559..b23f47a 100644
--- a/ababe/cmdline/apps/occupytenter.py
+++ b/ababe/cmdline/apps/occupytenter.py
@@ -67,17 +67,16 @@ class App(AppModel):
         import string
         import tempfile
 
-        rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                           + string.digits, k=5))
         working_path = os.getcwd()
-        poscars_dir = os.path.join(working_path,
-                                   'STRUCTURES_{0:}_{1:}'.format(self.comment,
-                                                              rd_suffix))
-        if not os.path.exists(poscars_dir):
-            os.makedirs(poscars_dir)
-        else:
-            shutil.rmtree(poscars_dir)
-            os.makedirs(poscars_dir)
+        while True:
+            rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                               + string.digits, k=5))
+            poscars_dir = os.path.join(working_path,
+                                       'STRUCTURES_{0:}_{1:}'.format(self.comment,
+                                                                  rd_suffix))
+            if not os.path.exists(poscars_dir):
+                break
+        os.makedirs(poscars_dir)
 
         ogg = OccupyGenerator(self.cell)
         g = ogg.gen_nodup_trinary_alloy(Specie(self.s1), self.n1,
-- 
2.43.0


From 7af1760bee3f8b7025a4859d8636be0e4b78d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:41 +0000
Subject: [PATCH 17/28] fix: three-component commands substituted every
 element, not the chosen one

---
 ababe/cmdline/apps/occupymakert.py | 2 +-
 ababe/cmdline/apps/occupytenter.py | 2 +-
 ababe/stru/sogen.py                | 9 +++++----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ababe/cmdline/apps/occupymakert.py b/ababe/cmdline/apps/occupymakert.py
index 05fc54d..053a4c4 100644
--- a/ababe/cmdline/apps/occupymakert.py
+++ b/ababe/cmdline/apps/occupymakert.py
@@ -94,7 +94,7 @@ class App(AppModel):
         for n1 in range(1, self.n - 1):
             for n2 in range(1, self.n - n1):
                 g = ogg.gen_nodup_trinary_alloy(Specie(self.s1), n1,
-                                                Specie(self.s2), n2)
+                                                Specie(self.s2), n2, self.ele)
 
                 for n_count, c in enumerate(g):
                     if self.tr is not None:
diff --git a/ababe/cmdline/apps/occupytenter.py b/ababe/cmdline/apps/occupytenter.py
index b23f47a..9225f76 100644
--- a/ababe/cmdline/apps/occupytenter.py
+++ b/ababe/cmdline/apps/occupytenter.py
@@ -80,7 +80,7 @@ class App(AppModel):
 
         ogg = OccupyGenerator(self.cell)
         g = ogg.gen_nodup_trinary_alloy(Specie(self.s1), self.n1,
-                                        Specie(self.s2), self.n2)
+                                        Specie(self.s2), self.n2, self.ele)
 
         if self.tr is not None:
             tr = (Specie(self.tr[0]), self.tr[1])
diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index c3d7983..244d6cd 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -108,12 +108,13 @@ class OccupyGenerator(object):
         dup = self.gen_dup_of_ele(ele, n, sp)
         return self.gen_2nodup_gen(dup)
 
-    def _gen_dup_trinary_alloy(self, sp1, n1, sp2, n2):
+    def _gen_dup_trinary_alloy(self, sp1, n1, sp2, n2, ele=None):
         init_numbers = self.init_cell.numbers
         isp1 = sp1.Z
         isp2 = sp2.Z
 
-        sp_ind_origin = [i for i, s in enumerate(init_numbers)]
+        sp_ind_origin = [i for i, s in enumerate(init_numbers)
+                         if ele is None or s == ele.Z]
         for sp1_comb_index in combinations(sp_ind_origin, n1):
             sp_ind_bin = [x for x in sp_ind_origin if x not in sp1_comb_index]
             for sp2_comb_index in combinations(sp_ind_bin, n2):
@@ -126,8 +127,8 @@ class OccupyGenerator(object):
                 yield GeneralCell(self.lattice, self.positions, numbers)
                 # pdb.set_trace()
 
-    def gen_nodup_trinary_alloy(self, sp1, n1, sp2, n2):
-        dup = self._gen_dup_trinary_alloy(sp1, n1, sp2, n2)
+    def gen_nodup_trinary_alloy(self, sp1, n1, sp2, n2, ele=None):
+        dup = self._gen_dup_trinary_alloy(sp1, n1, sp2, n2, ele)
         return self.gen_2nodup_gen(dup)
 
     def gen_add_one_speckle_unitary(self, gen, sp):
-- 
2.43.0


From 614749b98add993782db73043b4b96aabc095daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:41 +0000
Subject: [PATCH 18/28] fix: POSCARs labelled cartesian held direct coordinates

---
 ababe/io/vasp.py | 2 ++
 ababe/stru/io.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/ababe/io/vasp.py b/ababe/io/vasp.py
index 1215c8c..0c338a4 100644
--- a/ababe/io/vasp.py
+++ b/ababe/io/vasp.py
@@ -98,6 +98,8 @@ class VaspOutput(object):
         # sort the positions by atoms seqence
         for (i, pos, site) in sorted_position:
             if not i == 0:
+                if not direct:
+                    pos = np.matmul(pos, self.lattice)
                 line = " ".join(["{:10.6f}".format(p) for p in pos])
                 line += " " + site
                 lines.append(line)
diff --git a/ababe/stru/io.py b/ababe/stru/io.py
index 02254f9..d87b00a 100644
--- a/ababe/stru/io.py
+++ b/ababe/stru/io.py
@@ -6,6 +6,7 @@ from collections import Counter, OrderedDict
 from operator import itemgetter
 
 # import ruamel.yaml as yaml
+import numpy as np
 import yaml
 
 
@@ -107,6 +108,8 @@ class VaspPOSCAR(object):
         # sort the positions by atoms seqence
         for (i, pos, site) in sorted_position:
             if not i == 0:
+                if not direct:
+                    pos = np.matmul(pos, self.lattice)
                 line = " ".join(["{:10.6f}".format(p) for p in pos])
                 line += " " + site
                 lines.append(line)
-- 
2.43.0


From 2f9807496cb060036ea377ea5c3d378b1d15c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:41 +0000
Subject: [PATCH 19/28] fix: cartesian POSCAR coordinates were read as direct
 ones

---
 ababe/io/vasp.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ababe/io/vasp.py b/ababe/io/vasp.py
index 0c338a4..3177f94 100644
--- a/ababe/io/vasp.py
+++ b/ababe/io/vasp.py
@@ -30,9 +30,8 @@ class VaspInput(object):
             # In vasp, a negative scale factor is treated as a volume. We need
             # to translate this to a proper lattice vector scaling.
             vol = abs(np.linalg.det(lattice))
-            lattice *= (-zoom / vol) ** (1 / 3)
-        else:
-            lattice *= zoom
+            zoom = (-zoom / vol) ** (1 / 3)
+        lattice *= zoom
 
         nsymbols = [Specie(s).Z for s in lines[5].split()]
         natoms = [int(i) for i in lines[6].split()]
@@ -41,9 +40,12 @@ class VaspInput(object):
             numbers += s * [nsymbols[i]]
         numbers = np.array(numbers)
 
-        positions = np.around(np.array([[float(i) for i in line.split()[0:3]]
-                                                     for line in lines[8:]]),
-                              decimals=4)
+        positions = np.array([[float(i) for i in line.split()[0:3]]
+                                                     for line in lines[8:]])
+        if lines[7].strip()[0] in 'cCkK':
+            # cartesian coordinates, scaled like the lattice
+            positions = np.matmul(positions * zoom, np.linalg.inv(lattice))
+        positions = np.around(positions, decimals=4)
 
         return lattice, positions, numbers
 
-- 
2.43.0


From 954b4b8b6cc4d226204f5338b6d393c704c64825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:41 +0000
Subject: [PATCH 20/28] fix: a requested file format was overridden by parts of
 the path

---
 ababe/io/io.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ababe/io/io.py b/ababe/io/io.py
index cc26c53..03ba2d0 100644
--- a/ababe/io/io.py
+++ b/ababe/io/io.py
@@ -5,6 +5,7 @@ from ababe.stru.element import Specie
 from collections import Counter, OrderedDict
 from operator import itemgetter
 from fnmatch import fnmatch
+import os
 
 # import ruamel.yaml as yaml
 import yaml
@@ -20,9 +21,11 @@ class GeneralIO(object):
         fname = fname or ""
         fmt = "" if fmt is None else fmt.lower()
 
-        if fmt == "yaml" or fnmatch(fname.lower(), "*.yaml*"):
+        # an explicit format decides; otherwise the name of the file does
+        name = "" if fmt else os.path.basename(fname)
+        if fmt == "yaml" or fnmatch(name.lower(), "*.yaml*"):
             writer = YamlOutput(self.gcell)
-        elif fmt == "vasp" or fnmatch(fname.lower(), "*.vasp") or fnmatch(fname, "*POSCAR*"):
+        elif fmt == "vasp" or fnmatch(name.lower(), "*.vasp") or fnmatch(name, "*POSCAR*"):
             writer = VaspOutput(self.gcell)
 
         if fname:
@@ -37,9 +40,11 @@ class GeneralIO(object):
         fname = fname or ""
         fmt = "" if fmt is None else fmt.lower()
 
-        if fmt == "yaml" or fnmatch(fname.lower(), "*.yaml*"):
+        # an explicit format decides; otherwise the name of the file does
+        name = "" if fmt else os.path.basename(fname)
+        if fmt == "yaml" or fnmatch(name.lower(), "*.yaml*"):
             reader = YamlInput(fname)
-        elif fmt == "vasp" or fnmatch(fname.lower(), "*.vasp") or fnmatch(fname, "*POSCAR*"):
+        elif fmt == "vasp" or fnmatch(name.lower(), "*.vasp") or fnmatch(name, "*POSCAR*"):
             reader = VaspInput(fname)
 
         return reader.get_cell()
-- 
2.43.0


From e2a7a99de511916b16ae4d13457d5cff53185d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:06 +0000
Subject: [PATCH 21/28] fix: the fullerene permutation table did not belong to
 its coordinates

The shipped table is the icosahedral group acting on another numbering of
the atoms: only the identity keeps the distances between the positions in
buckyball.json (as Structure sorts them), so of the 23 two-atom
substitutions listed only 16 were different molecules.  The table is
regenerated from those positions.
---
 ababe/stru/bucky_permu_table.npy | Bin 57680 -> 57680 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)

diff --git a/ababe/stru/bucky_permu_table.npy b/ababe/stru/bucky_permu_table.npy
index 796d216e99e78d504920ddb71928796f6dd1cec4..09e22c3940d8a726bac1d83df0c08ec76306f383 100644
GIT binary patch
literal 57680
zcmZA3NpqA18-?Kx^E}Tuv><i@QIdc$fNOSIZd|ysQW8t6EU^-ImcPP3EEdn@;&#&?
zh~#~r>zvcyKi_`;&38YnEnYAFTD>_q`sr}>a=H5Y*S*!|a`p4u!#@xAfB*6A;hTg1
ze*g9UZ$}63e*fr~{XY)g{d#?SXKQo0yS1^o{CoNSpL2`(XKg-@&FAs?JTadq=kwHj
zo}SM$^LchY{e|b}*B9pV;(T73&&%_9Wj?RY=e7B~KA$({^X7csn$O$wd1pTF&gZ@P
zyg#2G%;$&m`O$oSJfF+?{A4~K%;&@T{B%Aa&F5$Hxth=Q`P`V#$MgAQJ~!v{^ZEQ@
zKA+C#)_iWy=gxdSo6qO-`Q?1>&gWP2xi_CL=JVxzzM4-TeCt{7de*z1^{!{V>sjx5
z)|)Hmde)okat=|?de^hw^{jV2>s`-!*R$UB<;q!ax#}%<z2&O6-1U~L-g4Jlu6oN|
zZ@KC%cfIARx7@jM)?2Q6%bhD{z2&O6-1U~L-g4Jlu6oN|Z@KC%cfIARx7_uXtKM?g
zTh8^ZXT9rL?|Rm|p7pM0z3W+TuAJ*xZ?2r{S?_w*yPox~XT9rL?|Rm|zIv*Uddy7^
z^-UhQ>zO|3IXAs^Z~5V_SNdWHxaqC?%NKV&)ED{EFT21=&)r>~^hy5YKri)4ez@v2
z2l<mLz0@~(;;Pr2<V%k9QXl0<PV}0qe8@q4>sjx5*1Mkdu4ldLS?_w*n=9vf)|)Hm
zde*z1^{!{V>sjx5*1MkduCE^ID=&T4GkxSO7kZ>`y!73j^_RCC>4|>vvIp+2zr5v4
zPxMi~^ox&uaBqE=Cw<~ChkB%+Jmtv!^;@3gP|x&}r(E&TZ~2ikJ=9P6kRzV@&0kLH
zThDsev)=WrcRlM}&wAIh-ds7?v))`e*R$UBtam-@UC(;gv)=WrcYWR0op`ycJ9$su
z+}y=`=(RiQsXNG%9LTx%up3<T)E(@M9O#+%lu!A$BV6o)JIkv+*eN;EQ+KmNa$pzS
z-Hyqzp6Zhwk^?)!)sD%jUhAiwl1sax-*(1c)VH4Xu4ldLS?_w*yPox~XT7;{u4lcu
za;|5+>sjx5*1Mkdu4ldLS?~Jlp}z9cXFbzL-g2Qw`o>G&-C2Km%aNYw7cYC@?)uAH
z&h$hd<x9W#*a!F4cX`q${&J{C`pHv{++V-tNe=Z)KY7X(AN`geInzV^ln*)Lso(tN
zq`vj6cRlM}&wAIh-u0|^J?qVtb3N<Lm2*AoUC(;gv)=WrcRlM}&wAI_ecahSxp_bL
z;>F$byN~<nxA)gq{&MB{<(-H9@c#PB-`;pXeUnf5=V4FW*FMOrKFE)~axZ=5Z;#yD
zKFF^<(<6Q5Z;yD|6Zy1fda2*?Xs`6ze%J|nQ{Q^lyPox~XT9rL?|Rm|p7rL+xt{gr
z%DJBPu4ldLS?_w*yPox~XT9soj}veG<ikPF_1pd3Sw8fWw|m<G{dRA6lpp=%?f!N`
zzxlbNop5(~(ntBwFT3E*c0}KKy0iS~uRQ3R9kCBQImna#%7Z@I346ekn;p=1dC*rq
z*XR1yv)=WrcRlM}&wAIh-u0|ESI+gUH&@Q}tam-@UC(;gv)=WrcRlM}Up>$#z0prO
zb}zluZ#i`zJ>f3r9QD{<$f-N%m0Za=M?IEHIp$zz+(obCOi$#-?zod3kaIoYsK;`w
zH*#Z#^uWD2>aiT_r5wtq9`KY4d6aW`kURO3)B4u4-u0|^J?mZ1de^hw^{h8n&h@M}
zSI+gUcRlM}&wAIh-u0|^J?mXxew=vgCm#-auHWwO&hnw3yxrRl=(l^jqx|S6Z}+zo
z`pwTB?S#9_lRnCae%S?gwj=t^)1Bo<f8{~n?1+8f$w8j<S041yPS^vU-0Xn9%Y(k^
zxjxsop7pM0z3W-;de*z1^{!{VxpJ;&y}5F(XT9rL?|Rm|p7pM0z3W-;`nrSn(<}LN
zf6u8m^6kFvpx5%p-*f7v{PS}syCI+Q<vr|z{L7C!=_yCM)I7U`9?OB9(I<K3V#oAF
zAKcx}=(D`ag`Lw!ec@_{?1enbot?7>`XX2IEw}ZpXT9rL?|Rm|p7pM0z3W+TuAJ=?
z&w6v^T+e#fv)=WrcRlM}&wAIh-u3nTp2NMoujlu3c(|YE^K*E}uY1a)Jm|0Y^<46x
zKYZj>-t^bK<<+jZgS_dR{OFIJa#wk`AH4NL{_TOh>7O06U%d5CKjcl`_1{j~JNeUp
zJ8944*}m98dsg3i*1Mkdu4ldLS?_w*yPoyt%DJBP=E}LA^{!{V>sjx5*1Mkdu4ldL
z>-qc~@9#OhpTEbwyr<{)96UUS`}?{4+|ga-RUW)2e|eN2cjPF~{PjmZ<zF7<UEcIn
zzPZ~OebWbhv}5`w|8iz$^xaO{13RhzcF>;LG5cdj?UkLhM|RTQ)wiDYu4ldLS?_w*
zyPox~XT7;{u4lcua;|5+>sjx5*1Mkdu4ldLS?~IKe$U}v-q-W{IXv9Y^Z7YE<kvmr
zQ6BWy`+6>U&>ueXDsTGh-tuZ!+(F*-O@8#pPPwbR+YjFQA^-M3-t^B7+ArSvryur1
z-u2&3+B^Bve>-W<<k`O1L3>u;de*z1^{!{V>sjx5*1Mkd=E}LA_2$aCp7pM0z3W-;
zde*z1^{!{V>+5;_T=(#Ey|2I5eY}_V@mzfTTpoTdFL!fa`IHauB@gl_FYd-uetGMQ
zyy}B|%D;T+r#$nvEBd7m`f0cHQQqatuIRU&v=4UC9@s_uX1DB(UA13!(LUKt`&Zw3
z*1Mkdu4ldLS?_w*yPoyt%DJBP=E}LA^{!{V>sjx5*1Mkdu4ldL%fnrHxC?K0b#Hg#
z%}pNML4Mqghr8%K7kP09yW(#0;4XHB6Ayb}XWYduxug5H|L$gY^v~|Nqn*+(IpJb=
z^xy92mz~l-z1LqmV;}5_{@Nw|w=4FczV)nkJ?mZ1de^hw^{jV2>&=yOJ?qVtb3N?<
z?|Rm|p7pM0z3W-;de*zX{(FDU^Z2=P<iGR2-b;?;#htu|9D6Pv?kvah$Hg7p)qBeW
zH$9SXdC&(t!A<Wu$e;entDNb*{@E=#voms{4{~lN^xrPZxt)_sebY0$WuNS<p4mnF
zXJ_qced}58de*z1^{!{V>sjx5)|)Hmde)mO=X%z=p7pM0z3W-;de*z1^{y`ucje(O
zyxrBk-HA6hd2k2$aW@|BqW4_n#U1R5yUByQ*cDDZ?17ze7rW$+?%)2qo88eryW@^_
zO26cUi`~(GyQ5!rO8@j;f9;HYuq*m&m-OGR*oXSov)=WrcRlM}&wAIh-u0|ESI+gU
zH&@Q}v;(~BS?_w*yPox~XT9rL@A~@tJ*PkKy*!V*_<5e&`?{mQ-`zbAC%NoBxyl`P
z?<*&A%g;UKN^j&quH{e<<d&P<>6LxqFZX(8zw}a1^xD42n_lR-eY6Yq)6Up0yJjEl
zj(xOS_SMeW%lg){-u0|^J?pI>JnLQ0de^hwTshaX-ds7?v)=WrcRlM}&wAIh-u0|^
zedSDEy{CT2k-WN_{>hO%dLRAseEP#v|K&`6-BbTPzrOLbFWyIg<V~L4-+s8KJ&<4h
zkSBZQp86{v_KcVPkY~N&rN8oK@8m_^^+V6(MGoa(&*V|A<zJ8LThDsev)=WrcRlM}
z&wAIh-ds7?v))`e*R$UBtam-@UC(;gv)=WrcYWnZ9_2{h<wTz4RQ}~mUgb#t<VfH2
zKp#E7`^u^QdtQCl1AE~8c<Qmcx|cn2ANylBIP$hv?k|V@>>V#TmoIz9Uk>F*ujECK
z<X?~EQO@OC59L>n^h3|;ThDsev)=WrcRlM}&wAIh-ds7?v))`e*R$UBtam-@UC(;g
zv)=WrcYWndUcIM&$dSCdoBqj>JbEAf^L+ZlQ~%{me%(|5J-@#3v@hOAf8<S`-QRw=
zr#+Bg{g5Yn=AQa1ANGuw{g7w9;ibRwX7A+1e(8sv$%`Dyzn;mXT+6>6)wiDYu4ldL
zS?_w*yPox~XT7;{u4lcua;|5+>sjx5*1Mkdu4ldLS?~JFjr_@#e9MLW%B?=gm3+#T
zzR8h(>4koJA9t2pefPZjtrzye`*PK5cXl89;~w_Lj&S8{zj(+cFMG#F?&Zq9$%9<V
zi(bixUdg-O$fw-Pv);+8Ug?8g)wiDYu4ldLS?_w*yPox~XT7;{u4lcua;|5+>sjx5
z*1Mkdu4ldLS?~Jlg?`Dk{^^DO>Vbago&L(P{>#06kbC{(AvbbtALL#R<zD~!$fe%N
zkzC869>}ep$&Fsf2QRtR3%TSW$9mVi$gTU!B`-PVDHrl2r#$6OUgTC@<gUK;tam-@
zUC(;gv)=WrcRlOPm2*Ao&6RUK>s`-!>p#zW*R$UBtam-@U0*qn7rBx@Iq-AjR=)jx
zevTZvmt1*IJ<>nV>pk^=kKDSm-s!)4xU=57qu$ApyUT^0;btf76EC^26LKvda%iXQ
zpS;MKozfe5)B`(dPvu$e?WA7ni(cuUp4PXX^{!{V>sjx5*1Mkdu4lcua;|5+xpJ;&
zz3W-;de*z1^{!{V>sjym>V<yEwf^aa{_25#>7D+{vHr`weUN+o;~_V4Y#-!a4&`3|
z`N*Z-$&p;kp&rPsp2>|~$OkXE)eE`gA;)^xyvVKl%Ox*4<|!BQB&R&(PG00zUgWO6
z^{jV2>s`-!*R$UBtam-@&6RUK>&=yOJ?mZ1dh0*Wde^hw^{jV2>s?>}y+0>6{+#FY
z9C9Nc-rsx5t><tz?<KeL#>d_D#(Q#dSG|#E`QWGra-rw$ZZ|mUogC^pANiF#yCN5M
zOz!N0zUznF+ci0~lX7pT?2-QIogK7yc31E0tUax7J?mZ1de^hw^{jV2>s`-!bLCvm
zdUNGm&wAIh-u0|^J?mZ1de^hw_3f|w=ll2d=k<B|ynUa(Z|~82^`5<VJveczXT9Y>
zE}EC-sd;N2o7d*Kd2b)um-eZBYaiR!`qs1F^{jV2>s`-!*R$UBtT$KA^{h8n&h@N!
zJ?mZ1de^hw^{jV2>s?>(<sP2L-F;84&tbf;yZRp7nt$(kxIdWR_kH3X+;->R@6D&@
zm8-||`<wIW9&)oYzyEwbefYlhzH+>rKj8bR{_ZcQ&*snjeso_wcryRq_aA>b_5T}Q
z%%9_@ClBZMAI+zH$??<q{q6abA3a&k?{Cbfyvlif>sjx5*1Mkdu4ldLS?_w*o9n#p
zVmbeVXT4v|zvo=fde^hw^{jV2>s`-!*R$UB?XUai`}g(d^?CZdeV@K>@6mhpp1pTH
zIB~0Iy@z)p7tKra)Vwv1&1>`AytfbSOZ(KmwU6y<ed}58de*z1^{!{V>sjx5)|)Hm
zde)mO=X%z=p7pM0z3W-;de*z1^{%h)UBB;p*MH}G*Wc@V*U$C6>$!aIdT!sl-plu{
z_x8Q(F1~l&&G)Xm`rdVS-@9Bmar3>))lPGl1G(_MD>uG(<;wT2-1**>OW(V4>w8zO
zeecS>?_Is{y{k9AclFBmuHO0H)l1*IdRyOm*1Mkdu4ldLS?_w*yPoyt%DJBP=E}LA
z^{!{V>sjx5*1Mkdu4ldL+h6z3_wVb^>+|$^`#yc&-lO;GJ$vtZaN<_addq=aG%w9l
z^VU2zug!Dw-afQ1?Nj^KKDMv*t!KUKS?_w*yPox~XT9rLZ?2r{S#PeK>sjx5*1Mkd
zu4ldLS?_w*yS~1Md_Vb~^Zn<0#rKWxQQxn=H+-M?9`ya_d&~Ek?{VMnzBhcI_#XEC
z?0d`ineTbu|Gt-eU-|zLzJKahfA^4c_jOl!mScY0<W)}H-`({^Pvl2#<W)}jbJrI=
zkuSN@2R)EyIj(O#>s`-!*R$UBtam-@UC(-R<y_BtbLCvmde^hw^{jV2>s`-!*R$UB
z?XUai`}g(d^?CZdeV@K>@6mhpp1pTHIB~0Iz2!hInwRFOd21e<*XFr-Zy(y1_Njeq
zAKTaZ*0bLAtam-@UC(;gv)=WrH&@Q}tT$KA^{jV2>s`-!*R$UBtam-@U0?sbKX+^K
z{vUtN^LdU-^Y8D?r}y`s*XH*<hr4;NQ}gdH&nF*uKR3VcJvq7SvHAD6=Tkm7o}S;A
ziwpB>cfT>e=6HO5Er;{V#r63g@+)^I=J(~|&iq>L*5=pe=TkrA{>=Qo9A24U%l*mu
z^~L$rKfOCUzkhQ+@6V^+U7cUwozME#v)=WrcRlM}&wAIh-u0|ESI+gUH&@Q}oHPCJ
zUC(;gv)=WrcRlM}&wAHaPxMVMmh)nAuYY={zj~lwa&HghT>sr&F63VS<X-ON+&*xS
zJGs|?dC@mLkXyNzQ~A&@9&)J{a^v1|tS53S4|1t@a>PT9dC0B2$RTgJkq5cuEtm2m
zhxM&zz3W-;de*z1^{!{V>sfEEoa<R{uAJ*x?|Rm|p7pM0z3W-;de*zX+~tG2pCecD
z=fC%J<W|1r%6rPGJ9-}PsYm)Jx9+Sb+`O+l>!tp?m%i(fT<E2o@v$#F<id{FCpnNq
zJ0kb;AV+r0{>hyl*fG75SGiu!1KC%7&>K6dr~0Os^{r>U>sjx5*1Mkdu4ldLS#PeK
z>sfEEoa<Tdde*z1^{!{V>sjx5*1NuXqHlVkzjCjCdZ)j7pkH!t59D0`-CZu^UjO7?
z?&RD)aF9E>*ME7@H$9MBxtCM<&@UcxsTXqN-g2xbaw`vVsdsY3LymdKt-Qz~Z@G~N
zx#caF@*{`!t!KUKS?_w*yPox~XT9rLZ?2r{S#PeK>sjx5*1Mkdu4ldLS?_w*yS{QG
ze{v<?av{HRs}FJ|pK_&da-?5+p`YHzo#j^FJ+FT2g?;e8T=m+W-N*j8hrO{QTshk>
z9&*Xc-tm!pxw3EaAeZu@SMs4(@~$`XDfjZMck-%N`k+_!t!KUKS?_w*yPox~XT9rL
zZ?2r{S#PeK>sjx5*1Mkdu4ldLS?_w*yS{QIpK>CP-d{iDMBdy}|2&_5cwhaKEBWQE
z|DIpp+*|)Wzy9#HFLEu1?r9JB*cUyKYxmM$d9!ak?1%i=J0AKg?|LK;_DkOEp*+Z&
ze(0IJ$*=tDnY`;wed}58de*z1^{!{V>sjx5)|)Hmde)mO=X%z=p7pM0z3W-;de*z1
z^{%hn$e$d@tDMQZ9Lb{`>xbOvlbq?F=XX~<(O1u>&vLB)-jAc6*bDd7Z|`qk+{+&E
zv?uN_hurNM4>{*&|M<(HoY^~h&?EWLGkKJA`PU=))Fb)ULw(Sz`qs1F^{jV2>s`-!
z*R$UBtT$KA^{h8n&h@N!J?mZ1de^hw^{jV2>s?>Dl2192NAIs6aw2c;sehhNKfJI0
z$(8)_)_>2hZ|<%Co?m}>+ZVZ(L-(`?eC&&!$hCXvue{ke9`-|i>>UsNm3KXo2m2*&
z_D~+=O+WNZ-sD&Q^-SLNroQ#8cRlM}&wAIh-u0|^J?qVtb3N<Lm2*AoUC(;gv)=Wr
zcRlM}&wAHa4&_O1<wNe}OD^S059C*`<VO$X%N;$pUh0Qldrmtbzudf+UC<Br)Mq>6
zE_TTs`PmP7b9cKX2lC9x?s1hj?siS?^hHkeORnTu4)sYd^hIv<QSS9iPwHFGde^hw
z^{jV2>s`-!*R$SSIoGq^TshaX-u0|^J?mZ1de^hw^{jV&-QOK~x*IQd;mL)EJIaf@
z$csDZz5DZWH#_1k^5hP7g@?Sjn_b{!cihR&xQiX&Vt4dUUfk6V>6hJcSG%MC^25yz
z>7U)vH#=h=^j?4Mj{e&f{k0?ZpuY92cRlM}&wAIh-u0|^J?qVtb3N<Lm2*AoUC(;g
zv)=WrcRlM}&wAI_-{-%R6MxS0dM-JU5BKoia_Z;0pZAbc`QybwPrMf|chnR4mKSb%
zAt!q6&US*E9?GR&>z_Q!nH`Y_yCr9KLjUze&h41|*+n_GTlPu+^vo{WKf9}EcGtev
zx1RN`XT9rL?|Rm|p7pM0y}5F(XT7;{u4ldLS?_w*yPox~XT9rL@A|sGJMwflUhcw^
z3lDdc7k7~tchGzH=jCp8#9idc9qbAZd2u(pz{&2olbvxFJHW;6=%2i}s~yrWyW_5Q
zNB`xAn;p_WyQ6P*#y;r1{@NY=w=4Q<N9;j;>sjx5*1Mkdu4ldLS?_w*n=9vf)|)Hm
zde*z1^{!{V>sjx5*1MkduCM3ybKS$w^}haI_wiod$8+)Vb9wl=yxh%w<x@VqmpsU$
zyto@r`Q@!I@~RK=DgW}NpYqJxuIQIO=%?M%M|qboyQ1HA(mvQldtevso87WEcGZ5_
zMf+qo?O%QCS?_w*yPox~XT9rL?|RmoE9ZLFn=9vf*1Mkdu4ldLS?_w*yPox~ulMm>
zp5M=LPj~Qqehx2pbx(QY)%<!6dC_0@mq&SNf8<jh_1F8_6Zy~&dDA!dvrjzrL;kxT
z`X~SPfT#Z1#qO8>>xX@jGyS)t_E2u^iygIhcG14ox1RN`XT9rL?|RBF?|Rm|p8CU^
zE9ZLFn=9vf*1MkegLggaT~GVPyPox~XT9s|dHr1P=kIYJ&*Aw!hkJQX_xE#nc@FoK
zM}F?eU;gC9d-9W4`Ef@*;VzHzF2DMrmvUxD^hv(?+bJIUp|5sCpXFcP?4Uf@O?zRd
z?2Db0e>-T8?5up-P5W2hde*z1^{!{V>sjx5*1Mkd=E}LA_2$aCp7pM0z3W-;de*z1
z^{!{V>+5|ym*@9$+|wOApP$3aUENdOcs0MCLtgaP{pC?!+8_CpNB#A__C!APL*Dew
z{p=G@{gD6ehyKaGJ>aQ-cCq`V|N3EH<V^qVs6CWh`(j7!on5qV^{r>U>sjx5*1Mka
z%e$WSuBZO+=E}LA_2$aCp7pM${oq~Cde_r_@vdjR>sjymdS7?&yxzlo-QDwePJUe7
z!=2opi|6s2@*`L7;ZFSJ!uz^|e94{nlUr^axyyl^+b_M*7dvI2^im(?(*Ed`KG{M0
zXBX^&T-qPb`fLa7pB&i>J7?eQlzpmiJ?mZ1de^hw^{jV2>s`-!bLCvmdUNGm&wAIh
z-u0|^J?mZ1de^hw_2tQp4+sAG>HhAl_xjD#o#jJ6-P;}QgnsjMclpszKJI8o^xOUI
z2Y>yMCw+8pd%??{?To(j)+agAUtS#SjQ!xPZ*rx-yg1nrd%;^j?Swthd;P9&J?mZ1
zde^hw^{jV2>s`-!bLCvmdUNGm&wAIh-u0|^J?mZ1de^hw^_6@5kyCfl8~v0+chO7z
zmSc{3A{TP#4tj1s<d~!0$(@{X&~rI;AN!*xa-(;0=w9|n?m5~CIoBJx(Q`R=UygQ4
z5A;&b^jwa4ahFp);4N2jDd+Mem-Ve@z3W-;de*z1^{!{V>sfEEoa<R{uAJ*x?|Rm|
zp7pM0z3W-;de*zXJh}1Vz+XSz-<|bdzj?Z|eCVfpyQ7`ZZ=UWhKl;hX9qovIyTAS5
zuRrpnkM3<Rc)7Ek(RbeZBuDzoi-Vo9AH4NVuJo4|Cp%&<c<ZN~um^gt-}S9$z3W-;
zde*z1^{!{V>sfEEoa<R{uAJ*x?|Rm|p7pM0z3W-;de*zXdL#etBd>a?Kkgxqdaa-Q
z<XIl{#rw;n-OzV_@+@!q=l=34pZe}T_D5dyMgH{9z3dS``Im2dAuswPzxvM4o#o$N
z$(Mf0ufFr<Cjas(Pu%5OKIKua>RZox*R$UBtam-@UC(;gv))`e*R$SSIoGq^^{jV2
z>s`-!*R$UBtap9&PCxZX-+1b`p6HW2$cg*vFHd`*2l^uqa^&9n%hO)yfj-KEoavEV
zxwpRavmbgRM|z^4@*#)ruiw1oNsshXp5%~^e)E<uz0*(mku!e!Egy2kTQ2Hb&wAIh
z-u0|^J?mZ1de^hwTshaX-ds7?v)=WrcRlM}&wAIh-u0|^ecjvL+{b(Jba(gg9`e9d
z58Xkp-C2&khkVI_9=e0w;G##~)9%QDoXe%&yQ3Z9BKLBthwfy@<Vf$`)lSKQ9_o*s
zlVdx=%}&XIUhAiwlUKW;-*!ws?T-DZZ$0Z>&wAIh-u0|^J?mZ1dUNGm&w6v^T+e#f
zv)=WrcRlM}&wAIh-u2Zx{nR6U<Eh_zqEGT5C+@4iJnexV=#M<ek$dYePkW&U`X~=_
zrblw+-ulkZe&~%H>4|>Iha9@Ue)E<mJ<?Bkl0!cF&0D_oPCw;G&iLuKe8>@Rxu|bF
z>s`-!*R$UBtam-@UC(-R<y_BtbLCvmde^hw^{jV2>s`-!*R$UB<;B(gIq9VwxGx92
z)_?cqs+V%&e(tW<_QJin>ZKgHA1A%GC+=@Q^hOT!P_EqDUbrteJ-0V{#9eRY$^E(6
z4SS<!-1Szz_;9lm_Czna+W~u_*ZN=Ide*z1^{!{V>sjx5*1Mkd=E}LA_2$aCp7pM0
zz3W-;de*z1^{!{V>#Mh%^_HvNa@Sj~ddppJx#}%<z2&O6-1U~L-g4Jlu6oOzD`&ms
zs<+&^a@Jd}ddppJx#}%<z2&O6-1U~L-g4Jlu6oN|Z@KC%cfI9Y-+I=&p7pM0z3W-;
jde*z1_2$aCp7rL+xt{f|XT9rL?|Rm|p7pM0z3clgkaAO0

literal 57680
zcmeI2OOIVw5rsQW?2co{ArHrK!s9w2v^%sD+wm(lV`d-*FkpltVgwU{92g;f1%H?z
z*Ox&_rS%Ptbha#KvW2-i_v~7$)>>7!|NGlN{N{ImeC6oZNB=(g=IM8Tes=QsaPq6a
zJvuo%oc!h6Xa9Wm_22*W?Xz#5{{P>9|Lk8+zyIg&{`&Plo__y7Z{E3k`|R-G_UYN-
zKZpA7jidVS{W|Z~c~<9@IzO-Tah<=YlLx$0|NCK`pVfJ(&e!U^QRmO={HV^i>U_J-
z59)lq&Y#tJtIm(>yjbVEb>6A-QJp`j^L(9G>-=e*r*)pxd8qSVoww`!ah-40`C*+m
z>-?(DPwIT7&I@&3uJf05ep%<WI?vVlYMs~Xd{XEAI^V1Fi#mT)=W(5%*7=~${`~1Z
zc+Yg7{`~1ZruXjmoAB(ocV0~V={%eG*m0cjp7_yulz0a}Q=b)VN4>A6{_8xO@Pn_@
zJ*fx0nQ#UFiNBp+Q(t%dEN-?gy`MW?;A(lA^as9zU&6WT68z{qn)I{t8vUJkLfsPn
z@FeLOJWKiw&bBV-^i&V(cBltVxPrgsbJAsa4bF)V=ycb+&Np<Q=TGlJ-=+KX=TGmk
zweDK~Kxg3D#7FuQ94EYczrc^qqtuV^)9TQae|rC2;lXuI?~(Y<efsmK_vrdC=?MLq
z`q=V5@f|*<z6I}zADu_&QPQo{XY^yrRrsU5ujTWUTRT5`{+;mQKIz_5e&n9iW6HrD
zr^m(jiJ$Oznm1@0`o-oyn}^bTLjO#9(sjr3Ak7{0g{|LN6)Ne>#roXD6ZmBL0v{4@
zZrArF-cav^3v*%8Ez1L|_nqI<eUkp5Q%P^RU+;sdUu^z6)C1w!#K)8~$Rkr;={!oj
zgP-_Z*SoHZ_v;?`$<%+J)aMc(EDus{!Iy0PzO47VR%fpp^|f<UJ?04AocO{#ka&~w
z7rth5XUfg+#PYy?ZsPf&3PwNdrMnY<JI`0w-HE@Q=e93Xe^a02L(~nvCSG^FnRxbb
z@dy2azn$l{E=i}T+vGppr!1c*o#=XEbJ#R*bf33#<6e5YwJ#*z!OyMrwBtD8ZGFM^
zN6K^X!M<PeE8f5N!PGBX=e4Q-yG~4c((8Jt!r)JnkJ<hpPjo%*`egmc>aOKIdY*JY
z<t6TC^_1L}@?Dx|(c6yWg!iq&xAUX($mTz*yLN80_nq$7>yUU1-|gIJ^(D>6)Fb&g
zI3<3<<Gw$c`o-!Hb77hvdp}Qo-+4CivF|&ky~yM%Me`r#k`L-1(tXn2ihEwK=Oy2q
z^b_8}Pxe#v^VA17>U;6AiH|ntO#J9Pvi$*H6R)?f^Im+}y3Tv?#rjdg75r^~?1h`<
zpY4ymaI^fI@@UVkFY$dYuwDON6nvRi(p-ZtrF&ann0%`Hnaxc$|E->zY`@w0gS}JI
zEvxq@l{b1`>AWC+rh40Z*g4A1A5)&{xvS3)6VImH+VicQqb%?3eN%s<16}_opRn^n
zniI(1MXMk3`IO_Q`gfcXKjHD#dy9_u#EaAy^pE9z+8fZ{_P*>dQh!=L+dU>cOne2u
zgmaq5$fbQ>PHydbY<W7(r#;`=+-dJI@vZan?Yc;sgKeJtw4Rsvby}ZG`1LwX^?bjc
zH|a(F-$#~z^hxTcG?(KeXY~R}&pSR7j_=m<QhoUT^qy&NKpsP<lb%~X+x@Q1oz}N*
zR{fHH9oOd)uPt8=^}KYSK4(nt!S8U%A8bCbx;yn@=Og}=e9rnz;vM`<eMUb{`rdtD
z%0HcNwtlPgz}9bd9(3RCxPrgE@9Mg1{bP0Awf<q}+H<A5>A6Yg(c#r|nDwL8bC{ja
z?fgNGNqNWSgX#CI&bLW-x<1()o8}^XDCJjpVtLP;l=yFT()!>_e4h(g?}rx!U#sKr
zHQhVSmFS+$r)mE|eoZ-?yl(S&$9wAgzV|v`e%Jf(R{cA<r|S<oW&6$MCiG}}f9{#)
zBJ|?r?+ed?yij=JSIj?YPMUD<{II;YdnDd7&E0$Xs?7&Uf6%GDd^PnM{b+SE@d@79
z{9^087hk$=PWo!=ycb`rp4xk?uDkZWcE6T%3Vy=>)F)PV)4q({LheX9ZSQOI3;LFL
zZS{rwq<g1(QV*M7R?lH&@A3Cgt5=Wff#fZGp!Yxf(Uk8jpY6V>|NX$kAFD$T>%O1W
zIpLjt|03V?xqiwicAl~NV*A6s-*MF=<&)F;+=K&oP5#(<ndT1iC-qLaSiQ3Qd)ps(
zt1hWeUaQZgypwbf{8z`#@^5wAEdM4w>AEw`<GpX_r_^_rr-`5NcxxTE`nS4{v#&{f
zy;^;q@UuFU{2Bc1?{8LLEN-?g$#>}!%TwzgHYcXMPOd)`z6obrztwqQ>$f@&>>ObC
z7VtIk8r~#+y<WUx?@IpZJnuQG`v(5<c|8w(m~`Y`eJ<%Q^KHthm+N^`9wryqIUx1f
zp}y}yooT*hE=;_(zTfw*Q+-mtCeJ;odyw-cy`K2dd1U!)^QoQpQ*OZ@@6>%K9>e!O
zmrlG+xPt%cxLN+Kj+^D*w14P07hU2W#OmMbI&SrEbsbN-jDDv%pT0=`f)6D>MK3K+
z)BH|9TEDcuaJ`71`~kg8x@z_G!}{LDFRS-953P=y<=^VKS^nYI31@rX<oEEm=U@7@
z^MhPT-%t3Ev(mlOJ*h|cr^(0IucY}FeM>r+_7KctcD}SeXmPt(x-sDeu67Qf-U%0r
zN5TQT5)R;H`Dgb6X&yt5Ep9gNTD`Y^4i6JwFBM<#&&g+}{_40N>Uk+Yr8x_~Wo}6G
zMVj;Rzw~<={Iq*LI}ci3?S;qIyxI$ot$CGn6uq_g-7D`-zTEY*`#XNYJ*mfDc{k+;
za)!-ANvF^={3iL*&C<WG>YQ|VYdp5*mGz^o@z|PICxrtzPI%kAwzUs#t-IDgw)VlT
zb=T@?*QH6n?EW<I1U~JBo8_O)FMHu;`8WAb$JyR@^|{CLx%>9yCwt93$tUsCG@sy~
z7Pr&Vd-`<hXFE?@{#iW8C&@RhANBcb(g)^h=9{Viz$M{lar><BNWNtE4AbwapV#+L
z532{$?|e_{dFZ3<Ba54@OTr6WEl<-N&Ad(DC7hY7lV7KPq;L1aV{2aRg~!&svU<?{
zc)CA)O}tL}!+Tw>KArpzUAFV!oqAsKhpsmhf2Ms}*F(D}wEkiBlznE}PuV@!>bP0{
zt&W@JpPl0m#rtVKM!&cA!KrWh{kHb=t$lE7-JSHa>+D;F8+thPU&0mqZGPDcH_Jbp
zU-rVy@-O8o@|V@Cw3lRmX}`DV7ymBko%&$!>&_$VNBrGN+QXz=Kz?Aa-TSNe;rY5p
z+Eda`sqgxnG38&2o7IE#dms74`iI4X`6BT@;Q(Hie{a+W6A$sZgrCJN@dQ3~o^iik
z2l$$Jy>;HTxoPsB&da^>Zqgt4VfEDRl_xwq?sopz8jr1cW#^Br@z|PIX)eOAY~EO1
zcYB{s{k*#FcHQiKMn9szNvADt@FDTW`uSctEcqWkX?;KW75W1%2|tS)``am3;p61!
zRPXd&y#Lm}$KR}mOT4jlw)r6S1vucFNzZMb{Iu?y_+@=&(y^|0wtlPgz}9bd9`L&W
zdNb*gy|2}SG@mfXyiz<(xx?nfbWiH>sJ=Jt#q8d;_rcUJm+E_yANIL^(g&Mk`CTtP
z_e#AV$E3sPR?@dLzaQ$0lHZdH?7qqR(Z%|Hd}q?7<bU+V7xlcfXG=bWU*YRXR}-$_
zzdCM~f2-qW`FF1Pl5jq*&n2C<`UhVVulLe%%jeZ~{H$<GytcR{yudZ-4?4Bi?-kQL
z+4a}*&+ZSbe^}ho??&VTo3kzNQ*NOz_TtOdb>53FR>$${<m=?##A|qy_?2=bdDG5~
zX<o#CnETP2iD$i^Cmc&A<L_Ww{|;gI#SiNR6R*?$13uaNPPxD9#Jzf8%F&6R@Hpj7
z@=D6h<TRT*4|R{Lbxyizd1~i#=ECH|tLtv(#l#=$Z&SbazD|0E?rrVU)12M)^CiB|
z8>-LqFABa%m(lN%mFP25-}L_4T6e8~tggG(KVB_Bl1^W!&*4v#k6B+pkCJY69hvlI
z>l~JR2t8XphcSmF-?V(O``DD5!PWAL+?)7i@vynG>-FT@mVb7S4!;r))9+R2=-uky
z>HWDU`8esI)xWf#CYRcK;3LUzl1{-pa&+Rq)yb5b4~2vEEzA3aEBLRDo8{l?xLN)k
z7atPN_P$pCR@ZT>f2->_zx(vuiY}vj7LO_a;HUVm<x9$a=$@@JI+OIs{(T}ko%+f4
z(X`J%m(g!<N%+~lUZ2;exzE;bbspIIt<D4M)Aqh8w~%kHlrM0Q&pJQIPbp`?>%{-G
zzoZ`1{MY-{`uWAWXv!z=)#uQqNx#0R&!yktQtm@X)7*i7r+JpScdx&@xnFfjb+mre
zeP`08OZB~JPD(zB9^1Kg>YLtQmM^R0X8E@|ZkB&VtIhU_R{vJlam(k`bsW7+ytcSm
z9eSgP)pI)fgH9dlbID&V9-q|nlFp?448GfSZqmcFA4G4he^}g--;)b$&fdDtd+}xK
zI`737tK)XQOmijq7~Uj)r5s64O1YW-@A@$52suCb$dsqLf1fMeAg@ljHsxXZ$LeXC
z%b5r4UTT_)`}}P0Yxe?n--He(y@ZE}uk33Q&dCq(4g2?mmZvw0SBbCozW7qoqtv(b
zcba>dkL`S(?nyl??^8d*W2-~xOwuFf^wh`9t!ciU^n~~4o>uQI@6nG`Z+j1`L)MR`
zJk@hontRC^Z&tshykqss^4{jP)p4`@TOBvczcinaKkR+2{;jU#R{xT&pg-ta(!s5D
zJn1sJXYWf+NO=N1O1cHV5)TihYstUJpDCwWy-GO)9(TQ-`X%K)@}ZsIdaj-F?@N52
z6R7v$i-ND^OV3-A9_=;vO#JOUw>cu|6neJx++*jNq>t#Rom1>wc2;_tbc;DD%~RI5
z(%gZ*r?~??vw0)U$MDJaNAeeZ$nM9jPhTtC(tBFo+j-%nzV}ckICVU&4%wXD_f!*(
z^hxR`_U<Wn;KRwUC!g<qW#_20&x7y%`O|x_zexHq;n{JweQ9}5eo8)Ub?Cj~XVN43
zGxhQ0kG=oECE=IuNj>TsoBb|{UMBo3ZniGTH^9~MH0cj~wR(EJ3jL(cNx$rzXXgs5
zYe~=0y|nK^=WSh5J*ZpHWmA5$d``NIeuH!3gWZEzy@#)f*GYfSsqUZCy|&JElaF>@
zcAcC0KItfWoAd{rvU<vXCG{tKO}w@|n0Vg%!Pf7%8iak!)TgKQxrrz6$@0a{DdgkC
z8=E`ryk&V{eXH|(y3by^YyG41Y~tfyx|{lpeoVQPTyUc<lK5bG@KHT4@xj(F?Jw~)
z^eyS&)c;*4COz)Dll%%_quvRZLlq{?4VDL1uU4OXQvQd(<ov`#a7p-)CsOXfhm&91
zKI;3_Nxzb>!Rsl1qZjb$TJf**y!V6kBl2;|(aCr5XPYBd--FnE04@o?$)~!XC0xND
z-Xwm3OTy3MX6v$7ZnAo6ebvrUtM8R<UC`;I=Tm;{xx(@}=`#AA@&h>|%|*;l{{z6w
BQz-xd

-- 
2.43.0


From f7874edb386e8054402e19633a70e976ad144c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:18 +0000
Subject: [PATCH 22/28] fix: only the first of several distance restrictions
 was applied

---
 ababe/cmdline/apps/occupybiter.py  | 11 ++++++-----
 ababe/cmdline/apps/occupymaker.py  |  9 +++++----
 ababe/cmdline/apps/occupymakert.py |  9 +++++----
 ababe/cmdline/apps/occupytenter.py | 11 ++++++-----
 4 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/ababe/cmdline/apps/occupybiter.py b/ababe/cmdline/apps/occupybiter.py
index 31c60d1..6aba14b 100644
--- a/ababe/cmdline/apps/occupybiter.py
+++ b/ababe/cmdline/apps/occupybiter.py
@@ -48,7 +48,7 @@ class App(AppModel):
             self.n = nspeckle
         # if there no restriction given then no restriction
         if trs != ():
-            self.tr = trs[0]
+            self.tr = trs
         else:
             self.tr = None
 
@@ -76,18 +76,19 @@ class App(AppModel):
         g = ogg.gen_nodup_of_ele(self.ele, self.n, self.speckle)
 
         if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+            # all the restrictions given have to hold
+            restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                            for ele, dist in self.tr]
 
         for n_count, c in enumerate(g):
             if self.mpr:
                 if self.tr is not None:
-                    condition = c.is_primitive() and applied_restriction.is_satisfied(c)
+                    condition = c.is_primitive() and all(r.is_satisfied(c) for r in restrictions)
                 else:
                     condition = c.is_primitive()
             else:
                 if self.tr is not None:
-                    condition = applied_restriction.is_satisfied(c)
+                    condition = all(r.is_satisfied(c) for r in restrictions)
                 else:
                     condition = True
 
diff --git a/ababe/cmdline/apps/occupymaker.py b/ababe/cmdline/apps/occupymaker.py
index 1d2428d..f222536 100644
--- a/ababe/cmdline/apps/occupymaker.py
+++ b/ababe/cmdline/apps/occupymaker.py
@@ -43,7 +43,7 @@ class App(AppModel):
             self.nmax = nspeckle
         # if there no restriction given then no restriction
         if trs != ():
-            self.tr = trs[0]
+            self.tr = trs
         else:
             self.tr = None
 
@@ -70,14 +70,15 @@ class App(AppModel):
         gg = ogg.all_speckle_gen_of_ele(self.nmax, self.ele, self.speckle)
 
         if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+            # all the restrictions given have to hold
+            restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                            for ele, dist in self.tr]
 
         for i, outer_gen in enumerate(gg):
             # print("Processing: {0:3}s substitue {1:2d}...".format(speckle, i+1))
             for n_count, c in enumerate(outer_gen):
                 if self.tr is not None:
-                    condition = c.is_primitive() and applied_restriction.is_satisfied(c)
+                    condition = c.is_primitive() and all(r.is_satisfied(c) for r in restrictions)
                 else:
                     condition = c.is_primitive()
 
diff --git a/ababe/cmdline/apps/occupymakert.py b/ababe/cmdline/apps/occupymakert.py
index 053a4c4..e525b94 100644
--- a/ababe/cmdline/apps/occupymakert.py
+++ b/ababe/cmdline/apps/occupymakert.py
@@ -51,7 +51,7 @@ class App(AppModel):
 
         # if there no restriction given then no restriction
         if trs != ():
-            self.tr = trs[0]
+            self.tr = trs
         else:
             self.tr = None
 
@@ -78,8 +78,9 @@ class App(AppModel):
         ogg = OccupyGenerator(self.cell)
 
         if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+            # all the restrictions given have to hold
+            restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                            for ele, dist in self.tr]
 
         # For diff outmode
         if self.outmode == 'vasp':
@@ -98,7 +99,7 @@ class App(AppModel):
 
                 for n_count, c in enumerate(g):
                     if self.tr is not None:
-                        condition = c.is_primitive() and applied_restriction.is_satisfied(c)
+                        condition = c.is_primitive() and all(r.is_satisfied(c) for r in restrictions)
                     else:
                          condition = c.is_primitive()
 
diff --git a/ababe/cmdline/apps/occupytenter.py b/ababe/cmdline/apps/occupytenter.py
index 9225f76..95e3771 100644
--- a/ababe/cmdline/apps/occupytenter.py
+++ b/ababe/cmdline/apps/occupytenter.py
@@ -51,7 +51,7 @@ class App(AppModel):
 
         # if there no restriction given then no restriction
         if trs != ():
-            self.tr = trs[0]
+            self.tr = trs
         else:
             self.tr = None
 
@@ -83,8 +83,9 @@ class App(AppModel):
                                         Specie(self.s2), self.n2, self.ele)
 
         if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+            # all the restrictions given have to hold
+            restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                            for ele, dist in self.tr]
 
         # For diff outmode
         if self.outmode == 'vasp':
@@ -99,12 +100,12 @@ class App(AppModel):
         for n_count, c in enumerate(g):
             if self.mpr:
                 if self.tr is not None:
-                    condition = c.is_primitive() and applied_restriction.is_satisfied(c)
+                    condition = c.is_primitive() and all(r.is_satisfied(c) for r in restrictions)
                 else:
                     condition = c.is_primitive()
             else:
                 if self.tr is not None:
-                    condition = applied_restriction.is_satisfied(c)
+                    condition = all(r.is_satisfied(c) for r in restrictions)
                 else:
                     condition = True
 
-- 
2.43.0


From b0ba42b2b450133c62ad5618e5ec5f4804aebbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:05 +0000
Subject: [PATCH 23/28] fix: structure identifiers depended on the integer type
 of the species array

---
 ababe/stru/buckyball.py | 1 +
 ababe/stru/scaffold.py  | 4 +++-
 ababe/stru/sogen.py     | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/buckyball.py b/ababe/stru/buckyball.py
index 817d6b3..9e38338 100644
--- a/ababe/stru/buckyball.py
+++ b/ababe/stru/buckyball.py
@@ -167,6 +167,7 @@ class Structure(object):
         as an identifier of diffrent structures, can be move to
         outerside class.
         """
+        numbers = np.ascontiguousarray(numbers, dtype=np.int64)
         num_hash = xxhash.xxh64(numbers).intdigest()
         return num_hash
 
diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 088821a..f67cee6 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -330,7 +330,9 @@ class GeneralCell(object):
 
     @property
     def id(self):
-        num_id = xxhash.xxh64(self.numbers).intdigest()
+        # the same species give the same id, whatever integer type holds them
+        numbers = np.ascontiguousarray(self.numbers, dtype=np.int64)
+        num_id = xxhash.xxh64(numbers).intdigest()
         return num_id
 
     def get_spacegroup(self):
diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index 244d6cd..d5d3f49 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -20,6 +20,8 @@ from itertools import tee
 
 
 def numbers2id(numbers_arr):
+    # has to agree with GeneralCell.id
+    numbers_arr = np.ascontiguousarray(numbers_arr, dtype=np.int64)
     num_hash = xxhash.xxh64(numbers_arr).intdigest()
     return num_hash
 
-- 
2.43.0


From cde5a4bd6fb2d7582d00334d64e853cbb3bcb61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:05 +0000
Subject: [PATCH 24/28] fix: occupation commands without --element accept a
 one-atom cell

The default element was read from the second site, which a cell of one
atom does not have (IndexError).
---
 ababe/cmdline/apps/occupybiter.py  | 2 +-
 ababe/cmdline/apps/occupymaker.py  | 2 +-
 ababe/cmdline/apps/occupymakert.py | 2 +-
 ababe/cmdline/apps/occupytenter.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ababe/cmdline/apps/occupybiter.py b/ababe/cmdline/apps/occupybiter.py
index 6aba14b..661bbaa 100644
--- a/ababe/cmdline/apps/occupybiter.py
+++ b/ababe/cmdline/apps/occupybiter.py
@@ -28,7 +28,7 @@ class App(AppModel):
         # Get number and index of target element
         num = self.cell.numbers
         if element is None:
-            tgt_ele = int(num[1])
+            tgt_ele = int(num[1] if num.size > 1 else num[0])
         else:
             tgt_ele = Specie(element).Z
         tgt_ele_index = np.where(num == tgt_ele)[0]
diff --git a/ababe/cmdline/apps/occupymaker.py b/ababe/cmdline/apps/occupymaker.py
index f222536..7dbab7e 100644
--- a/ababe/cmdline/apps/occupymaker.py
+++ b/ababe/cmdline/apps/occupymaker.py
@@ -23,7 +23,7 @@ class App(AppModel):
         # Get number and index of target element
         num = self.cell.numbers
         if element is None:
-            tgt_ele = int(num[1])
+            tgt_ele = int(num[1] if num.size > 1 else num[0])
         else:
             tgt_ele = Specie(element).Z
         tgt_ele_index = np.where(num == tgt_ele)[0]
diff --git a/ababe/cmdline/apps/occupymakert.py b/ababe/cmdline/apps/occupymakert.py
index e525b94..baea978 100644
--- a/ababe/cmdline/apps/occupymakert.py
+++ b/ababe/cmdline/apps/occupymakert.py
@@ -39,7 +39,7 @@ class App(AppModel):
 
         # Get number and index of target element
         if element is None:
-            tgt_ele = int(num[1])
+            tgt_ele = int(num[1] if num.size > 1 else num[0])
         else:
             tgt_ele = Specie(element).Z
         tgt_ele_index = np.where(num == tgt_ele)[0]
diff --git a/ababe/cmdline/apps/occupytenter.py b/ababe/cmdline/apps/occupytenter.py
index 95e3771..a6d966a 100644
--- a/ababe/cmdline/apps/occupytenter.py
+++ b/ababe/cmdline/apps/occupytenter.py
@@ -39,7 +39,7 @@ class App(AppModel):
 
         # Get number and index of target element
         if element is None:
-            tgt_ele = int(num[1])
+            tgt_ele = int(num[1] if num.size > 1 else num[0])
         else:
             tgt_ele = Specie(element).Z
         tgt_ele_index = np.where(num == tgt_ele)[0]
-- 
2.43.0


From f78e5e5532b0443a462476511269e1c8932fb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 25/28] fix: grids of more than a thousand sites compared equal
 when they were not

numpy abbreviates the printed form of such arrays, so the sequence
identifier left out all but the first and last sites.
---
 ababe/stru/sogen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index d5d3f49..69bc0ae 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -270,7 +270,7 @@ def _get_id_seq(pos, arr_num):
     # z, y, x = round_o_pos[:, 2], round_o_pos[:, 1], round_o_pos[:, 0]
     z, y, x = o_pos[:, 2], o_pos[:, 1], o_pos[:, 0]
     ind_sort = np.lexsort((z, y, x))
-    id_seq = str(arr_num[ind_sort])
+    id_seq = _get_atom_seq_identifier(arr_num[ind_sort])
 
     return id_seq
 
-- 
2.43.0


From 5bcf168c0027c74b6d5f49ec78df3c56b16f6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:28 +0000
Subject: [PATCH 26/28] fix: superlattices ignored the symmetry tolerance of
 their unit cell

---
 ababe/stru/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/grid.py b/ababe/stru/grid.py
index c8ec7db..8e5b77c 100644
--- a/ababe/stru/grid.py
+++ b/ababe/stru/grid.py
@@ -28,7 +28,7 @@ class SuperLatticeCell(object):
         self.lat_coeff = lat_coeff
         self.unit_cell = unit_gcell.spg_cell
 
-        self.sym = spglib.get_symmetry(self.unit_cell, symprec=1e-3)
+        self.sym = spglib.get_symmetry(self.unit_cell, symprec=unit_gcell.symprec)
 
     def __eq__(self, other):
         # H_j * R.T ^-1 * H ^-1 should be an int matrix
-- 
2.43.0


From 2b20a42a72494d6002b310df5f78c2a401fd72c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 27/28] fix: comparing a site with another kind of object
 raised an exception

---
 ababe/stru/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/site.py b/ababe/stru/site.py
index 574b0d8..4cf1599 100644
--- a/ababe/stru/site.py
+++ b/ababe/stru/site.py
@@ -15,7 +15,8 @@ class Site(object):
             self._element = Specie(ele)
 
     def __eq__(self, other):
-        return self.position == other.position and self.element == other.element
+        return (isinstance(other, Site) and self.position == other.position
+                and self.element == other.element)
 
     @property
     def position(self):
-- 
2.43.0


From 9c220c53dc59fba4ae5aa4b26d1c6a560f4d8059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 28/28] fix: extending a modifiable cell by itself never ended

---
 ababe/stru/scaffold.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index f67cee6..6fc46d7 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -545,7 +545,8 @@ class ModifiedCell(MutableSequence):
 
     def extend(self, sites):
         """ Adds atoms to structure """
-        for s in sites:
+        # a copy, for the sites may be those of this cell
+        for s in list(sites):
             self._sites.append(s)
 
     @classmethod
-- 
2.43.0

