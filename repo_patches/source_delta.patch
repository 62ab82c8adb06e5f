From a62046416094b2866a9fe63a89bf795cd7735eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 01/92] fix: coarsen families that are leaves of the subforest,
 not only of the full forest

---
 src/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 9a4a45a..4e151f2 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1042,10 +1042,10 @@ class Tree(object):
                 #
                 for child in self.get_children():
                     #
-                    # All children have to be LEAF nodes
+                    # All children have to be LEAF nodes (of the subforest)
                     #
                     coarsen = True
-                    if child.get_node_type()!='LEAF':
+                    if child.has_children(flag=subforest_flag):
                         coarsen = False
                         break
 
-- 
2.43.0


From 41a4d1bd8181d3a515bd3ca80c0a847059f93401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 02/92] fix: unlabel the whole progeny when a node of a submesh
 is coarsened

---
 src/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 4e151f2..6bc32f9 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1067,10 +1067,10 @@ class Tree(object):
                 pass
             elif subforest_flag is not None:
                 #
-                # Remove subforest flag from children
+                # Remove subforest flag from progeny
                 #
                 for child in self.get_children():
-                    child.unmark(subforest_flag)
+                    child.unmark(subforest_flag, recursive=True)
             else:
                 #
                 # Delete children
-- 
2.43.0


From 25efe61944c66242643e7c717280daf4c4578a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 03/92] fix: return the flagged trees of a forest when listing
 them in reverse

---
 src/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 6bc32f9..fa04ade 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1388,9 +1388,10 @@ class Forest(object):
             else:
                 children = []
                 for tree in reversed(self._trees):
-                    if tree.is_marked():
+                    if tree.is_marked(flag):
                         children.append(tree)
 
+                return children
 
     def add_tree(self, tree):
         """
-- 
2.43.0


From 38b4442bcf0f35cfa727a841201862d521166173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 04/92] fix: find no node at a forest address that goes below a
 leaf

---
 src/mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index fa04ade..ff7ec97 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1340,6 +1340,8 @@ class Forest(object):
                     return None
                 else:
                     node = node.get_child(a)
+            else:
+                return None
         return node
 
 
-- 
2.43.0


From e8b73e1fe28ef72a6e333327231fd0b983e49e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 05/92] fix: depth of a flagged subtree must not count
 unflagged descendants

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index ff7ec97..aa8cc78 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -442,7 +442,7 @@ class Tree(object):
         depth = self.get_depth()
         if self.has_children():
             for child in self.get_children(flag=flag):
-                d = child.tree_depth()
+                d = child.tree_depth(flag=flag)
                 if d > depth:
                     depth = d
         return depth
-- 
2.43.0


From 3b1a0f06bd56155aa460ae89c194778d8b3f197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 06/92] fix: apply the flag to the neighbors about an interior
 vertex

---
 src/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index aa8cc78..edb659a 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3505,6 +3505,8 @@ class Cell(Tree):
                     #
                     # Full rotation or no neighbors
                     #
+                    if flag is not None:
+                        return [nb for nb in neighbors if nb.is_marked(flag)]
                     return neighbors
                 else:
                     #
@@ -3534,6 +3536,8 @@ class Cell(Tree):
                     #
                     # Full rotation or no neighbors
                     #
+                    if flag is not None:
+                        return [nb for nb in neighbors if nb.is_marked(flag)]
                     return neighbors
                 else:
                     #
-- 
2.43.0


From bdfb05f611aab981b952107cba06fdd5fbe0fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 07/92] fix: keep every flagged half-edge of a boundary segment

---
 src/mesh.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index edb659a..b98db2d 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7250,12 +7250,7 @@ class Mesh2D(Mesh):
             # Throw out he's that are not flagged
             #
             if flag is not None:
-                for he, i_he in zip(segment, range(len(segment))):
-                    if not he.is_marked(flag):
-                        #
-                        # Not flagged: remove from list
-                        #
-                        del segment[i_he]
+                segment[:] = [he for he in segment if he.is_marked(flag)]
 
         return bnd
 
-- 
2.43.0


From 8d835bd0bced95270545776b4e378dbe4d74c946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 08/92] fix: do not lose boundary half-edges of domains with
 holes

---
 src/mesh.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index b98db2d..e933739 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7195,24 +7195,32 @@ class Mesh2D(Mesh):
                 #
                 # Check if g1 can add a deque in bnd_hes_sorted
                 #
-                merger_activity = False
-                for g2 in bnd_hes_sorted:
+                for i_g2, g2 in enumerate(bnd_hes_sorted):
+                    if g1 is g2:
+                        # A closed segment does not merge with itself
+                        continue
                     #
                     # Does g1's head align with g2's tail?
                     #
                     if g1[-1].head()==g2[0].base():
                         # Remove g2 from list
-                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
+                        del bnd_hes_sorted[i_g2]
                         g1.extend(g2)
                         merger_activity = True
+                        break
                     #
                     # Does g1's tail align with g2's head?
                     #
                     elif g1[0].base()==g2[-1].head():
-                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
+                        del bnd_hes_sorted[i_g2]
                         g2.reverse()
                         g1.extendleft(g2)
                         merger_activity = True
+                        break
+
+                if merger_activity:
+                    # The list has changed: start over
+                    break
 
             if not merger_activity or len(bnd_hes_sorted)==1:
                 break
-- 
2.43.0


From 7ff6777176e91ff6230c5d3d81ffd60d40d05e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 09/92] fix: locate a point in the smallest cell, not in the
 coarsest

---
 src/mesh.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index e933739..5b192cf 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7146,12 +7146,21 @@ class Mesh2D(Mesh):
 
         """
         for cell in self.cells.get_children():
-            if flag is None:
-                if cell.contains_points(point):
-                    return cell
-            else:
-                if cell.is_marked(flag) and cell.contains_points(point):
-                    return cell
+            if flag is not None and not cell.is_marked(flag):
+                continue
+            if cell.contains_points(point):
+                #
+                # Descend to the smallest (flagged) subcell
+                #
+                found = True
+                while found:
+                    found = False
+                    for child in cell.get_children(flag=flag):
+                        if child.contains_points(point):
+                            cell = child
+                            found = True
+                            break
+                return cell
 
 
     def get_boundary_segments(self, subforest_flag=None, flag=None):
-- 
2.43.0


From 48af5c0724d2627ec7742860ebf9a8098a243c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 10/92] fix: convert a vector with one entry to a single 1D
 point

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 5b192cf..ac78d6f 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -116,7 +116,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
                 if dim is not None:
                     assert dim==1, 'Incompatible dimensions'
                 x = x[:,np.newaxis]
-            if len(x) == 2:
+            elif len(x) == 2:
                 #
                 # x is a vector 2 entries: ambiguous
                 #
-- 
2.43.0


From 85245800872ea790ba5520d775af350a49331efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 11/92] fix: accept a list of numbers as 1D points

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index ac78d6f..db6e9aa 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -59,7 +59,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
             # All points are tuples
             #
             x = np.array(x)
-        elif all(type(xi) is numbers.Real for xi in x):
+        elif all(isinstance(xi, numbers.Real) for xi in x):
             #
             # List of real numbers -> turn into (n,1) array
             #
-- 
2.43.0


From f38ba588b499933aef29e8488751d270081f7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 12/92] fix: return the dofs of a region sorted, as documented
 and as the dof index map assumes

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index de5f18a..cc205f6 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2181,7 +2181,7 @@ class DofHandler(object):
             new_dofs = self.get_cell_dofs(cell, entity, interior=interior)
                                           
             dofs = dofs.union(new_dofs)
-        return list(dofs)
+        return sorted(dofs)
 
 
     def set_dof_vertices(self, subforest_flag=None):
-- 
2.43.0


From 28071c7a7b24a8e3014d894e0f5a393c430ea5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 13/92] fix: set the vertices of all dofs when dofs are
 distributed on another (sub)mesh

---
 src/fem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index cc205f6..a42df08 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2189,7 +2189,8 @@ class DofHandler(object):
         Construct a list of all vertices in the mesh
         """
         # Check if dof_vertices already set
-        if len(self.__dof_vertices) >= self.n_dofs(subforest_flag=subforest_flag):
+        dofs = self.get_region_dofs(subforest_flag=subforest_flag)
+        if all([dof in self.__dof_vertices for dof in dofs]):
             return
 
         # Reference nodes
-- 
2.43.0


From e6321e0269c7020674835f5fe8ce8ad5df155548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 14/92] fix: share existing dofs with newer neighbors and
 children when redistributing dofs

---
 src/fem.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index a42df08..c4b3d02 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1229,6 +1229,26 @@ class DofHandler(object):
                 distribute dofs
         """
         dim = self.element.dim()
+        if dim==2:
+            #
+            # Ensure the mesh is balanced
+            #
+            assert self.mesh.is_balanced(), \
+                'Mesh must be balanced before dofs can be distributed.'
+
+        if self.__dof_count > 0:
+            #
+            # Redistribution: Cells with existing dofs must share them with
+            # neighbors and children formed since, before new dofs are added.
+            #
+            for cell in self.mesh.cells.traverse(mode='breadth-first'):
+                cell_dofs = self.get_cell_dofs(cell)
+                if cell_dofs is None or None in cell_dofs:
+                    continue
+                self.share_dofs_with_neighbors(cell)
+                if cell.has_children():
+                    self.share_dofs_with_children(cell)
+
         if dim==1:
             for interval in self.mesh.cells.traverse(mode='breadth-first',
                                                      flag=subforest_flag):
@@ -1249,12 +1269,6 @@ class DofHandler(object):
                     #
                     self.share_dofs_with_children(interval)
         elif dim==2:
-            #
-            # Ensure the mesh is balanced
-            #
-            assert self.mesh.is_balanced(), \
-                'Mesh must be balanced before dofs can be distributed.'
-
             for cell in self.mesh.cells.traverse(mode='breadth-first',
                                                  flag=subforest_flag):
                 #
-- 
2.43.0


From f17004efe0e8a02c6869e83488ca5b99b68fd918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 15/92] fix: return the hanging nodes of the current mesh, and
 none in 1D or for discontinuous elements

---
 src/fem.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index c4b3d02..53e0d59 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2589,25 +2589,25 @@ class DofHandler(object):
         """
         Returns hanging nodes of current (sub)mesh
         """
+        if self.mesh.dim()==1 or self.element.torn_element():
+            #
+            # No hanging nodes in 1D or for discontinuous elements
+            #
+            return {}
+
+        #
+        # The mesh may have changed since the hanging nodes were last set
+        #
+        self.set_hanging_nodes(subforest_flag=subforest_flag)
         if subforest_flag is None:
             #
             # Default
             #
-            if 'default' not in self.__hanging_nodes:
-                #
-                # Set hanging nodes first
-                #
-                self.set_hanging_nodes()
             return self.__hanging_nodes['default']
         else:
             #
             # With Subforest flag
             #
-            if subforest_flag not in self.__hanging_nodes:
-                #
-                # Set hanging nodes first
-                #
-                self.set_hanging_nodes(subforest_flag=subforest_flag)
             return self.__hanging_nodes[subforest_flag]
 
 
-- 
2.43.0


From 81347be48a48084662f8041a6e97e0dc7fa96221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 16/92] fix: tell that the system matrix is already
 constrained, so that it is constrained only once

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index ab0fd98..53dfe50 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -542,7 +542,7 @@ class LinearSystem(object):
         """
         Determine whether the system matrix has been constrained
         """
-        self.__A_is_constrained
+        return self.__A_is_constrained
         
         
     def invert_matrix(self, b=None, factor=False):
-- 
2.43.0


From cb474606c75b41a02ad7831d144a05873b914a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 17/92] fix: index constrained equations by equation number,
 not by dof number

---
 src/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 53dfe50..27b3d64 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -342,7 +342,7 @@ class LinearSystem(object):
         # Define constraint vector
         # 
         d = np.zeros(n_dofs)
-        d[c_dofs] = np.array(constraints['affine_terms'])
+        d[self.dof2eqn(c_dofs)] = np.array(constraints['affine_terms'])
         
         # Store constraint vector
         self.__d = d
@@ -743,7 +743,7 @@ class LinearSystem(object):
             # Set b=0 at the constraints
             # 
             zc = np.ones(n_dofs)
-            zc[c_dofs] = 0
+            zc[self.dof2eqn(c_dofs)] = 0
             Izc = sparse.dia_matrix((zc,0),shape=(n_dofs,n_dofs)) 
             b = Izc.dot(b)
             
-- 
2.43.0


From b18d54fd524ee06eae2a877df13247a8e22aaf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 18/92] fix: distribute the load of every constrained dof, not
 only of the first

---
 src/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 27b3d64..465042d 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -740,10 +740,10 @@ class LinearSystem(object):
             b += ck.T.dot(bk)
             
             #
-            # Set b=0 at the constraints
+            # Set b=0 at the constraint
             # 
             zc = np.ones(n_dofs)
-            zc[self.dof2eqn(c_dofs)] = 0
+            zc[k] = 0
             Izc = sparse.dia_matrix((zc,0),shape=(n_dofs,n_dofs)) 
             b = Izc.dot(b)
             
-- 
2.43.0


From f595b58463e168c28674d861b679c5e17265048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 19/92] fix: keep the constraints of a linear system apart from
 those of others on the same dofhandler

---
 src/solver.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 465042d..f9fe5b6 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -105,7 +105,20 @@ class LinearSystem(object):
         # Determine Hanging nodes 
         # 
         subforest_flag = self.get_basis().subforest_flag()
-        self.get_dofhandler().set_hanging_nodes(subforest_flag=subforest_flag)
+        hanging_nodes = self.get_dofhandler().get_hanging_nodes(subforest_flag)
+        
+        #
+        # Constraints of this system (not shared with systems that use the 
+        # same dofhandler)
+        # 
+        constraints = {'constrained_dofs': [], 'supporting_dofs': [],
+                       'coefficients': [], 'affine_terms': []}
+        for dof, (supporting_dofs, coefficients) in hanging_nodes.items():
+            constraints['constrained_dofs'].append(dof)
+            constraints['supporting_dofs'].append(supporting_dofs)
+            constraints['coefficients'].append(coefficients)
+            constraints['affine_terms'].append(0)
+        self.__constraints = constraints
         
         # 
         # Store Bilinear Form
@@ -284,7 +297,7 @@ class LinearSystem(object):
             x_dir = convert_to_array(dirichlet_vertices)
             dirichlet_vals = dirichlet_function.eval(x_dir).ravel()
             
-        constraints = dh.constraints
+        constraints = self.__constraints
         for dof, val in zip(dirichlet_dofs, dirichlet_vals):
             constraints['constrained_dofs'].append(dof)
             constraints['supporting_dofs'].append([])
@@ -307,7 +320,7 @@ class LinearSystem(object):
         #    
         # Define constraint matrix
         #
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = np.array(constraints['constrained_dofs'], dtype=int)
         c_rows = []
         c_cols = []
@@ -417,7 +430,7 @@ class LinearSystem(object):
         #
         self.column_records = []
         
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = constraints['constrained_dofs']
         
         #
@@ -715,7 +728,7 @@ class LinearSystem(object):
         b = self.get_rhs()
         n_dofs = len(self.get_dofs())
             
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = constraints['constrained_dofs']
         C = self.get_C()
         d = self.get_d()
-- 
2.43.0


From 9f8ccd00f336791a0e4e5443325295c08576c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 20/92] fix: let Dirichlet constraints replace earlier ones and
 take effect after a solve

---
 src/solver.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/solver.py b/src/solver.py
index f9fe5b6..f1c12bf 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -299,11 +299,27 @@ class LinearSystem(object):
             
         constraints = self.__constraints
         for dof, val in zip(dirichlet_dofs, dirichlet_vals):
+            if dof in constraints['constrained_dofs']:
+                #
+                # Dof already constrained: The latest constraint counts
+                # 
+                i_dof = constraints['constrained_dofs'].index(dof)
+                for values in constraints.values():
+                    values.pop(i_dof)
             constraints['constrained_dofs'].append(dof)
             constraints['supporting_dofs'].append([])
             constraints['coefficients'].append([])
             constraints['affine_terms'].append(val)
 
+        #
+        # Existing constraint relation is out of date: start from the 
+        # unconstrained system
+        #
+        self.__C = None
+        self.__d = None
+        self.set_matrix(self.__A_unconstrained)
+        self.set_rhs(self.__b_unconstrained)
+
             
     def set_constraint_relation(self):
         """
@@ -379,6 +395,7 @@ class LinearSystem(object):
         
         # Store matrix
         self.__A = A
+        self.__A_unconstrained = A
         
         # Mark matrix as unfactored and unconstrained.              
         self.__A_is_factored = False
@@ -686,6 +703,7 @@ class LinearSystem(object):
             self.__b = sparse.csc_matrix(rhs)
         else:
             self.__b = None
+        self.__b_unconstrained = self.__b
         self.__b_is_constrained = False
         
     
-- 
2.43.0


From b87fedfd9a2637d2d69d621236e2fce142c9b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 21/92] fix: do not factor nonsymmetric matrices with CHOLMOD

---
 src/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index f1c12bf..8ef8815 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -642,7 +642,10 @@ class LinearSystem(object):
         assert A is not None, 'No system matrix to factor.'
         A = A.tocsc()
 
-        if cholmod_cholesky is not None:
+        # CHOLMOD only reads the lower triangle -> symmetric matrices only
+        is_symmetric = abs(A - A.T).max() <= 1e-12*abs(A).max()
+        
+        if cholmod_cholesky is not None and is_symmetric:
             factor = cholmod_cholesky(A)
 
             # Wrapper to present a uniform `.solve(B)` interface across
-- 
2.43.0


From 8b1fc08a4074f7c6651d153baf1d55d0d20f3dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 22/92] fix: constrain the right hand side anew when the system
 matrix is replaced

---
 src/solver.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 8ef8815..7f9ae64 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -120,16 +120,16 @@ class LinearSystem(object):
             constraints['affine_terms'].append(0)
         self.__constraints = constraints
         
-        # 
-        # Store Bilinear Form
-        # 
-        self.set_matrix(A)
-        
         #
         # Store Linear Form
         # 
         self.set_rhs(b)
         
+        # 
+        # Store Bilinear Form
+        # 
+        self.set_matrix(A)
+        
         #
         # Initialize constraint matrix
         # 
@@ -400,6 +400,10 @@ class LinearSystem(object):
         # Mark matrix as unfactored and unconstrained.              
         self.__A_is_factored = False
         self.__A_is_constrained = False
+        
+        # A right hand side constrained by means of another matrix is outdated
+        self.__b = self.__b_unconstrained
+        self.__b_is_constrained = False
     
     
     def get_matrix(self):
-- 
2.43.0


From b3fe0e25957427a6db9b4021591159c3c56f70f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 23/92] fix: differentiate nodal functions cell by cell, also
 on submeshes

---
 src/function.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/function.py b/src/function.py
index cc847c9..628b671 100644
--- a/src/function.py
+++ b/src/function.py
@@ -2354,17 +2354,18 @@ class Nodal(Map):
         # 
         dofhandler = DofHandler(mesh, element)
         dofhandler.distribute_dofs()
-        basis = Basis(dofhandler)
+        basis = Basis(dofhandler, subforest_flag=sf)
         
         #
-        # Determine dof vertices
-        #
-        dofs = dofhandler.get_region_dofs(subforest_flag=sf)
-        x = dofhandler.get_dof_vertices(dofs)       
+        # Evaluate derivative at each cell's dof vertices (it may be 
+        # discontinuous across cells)
         #
-        # Evaluate function at dof vertices
-        #
-        fv = self.eval(x, derivative=derivative)
+        x_ref = element.reference_nodes()
+        fv = np.zeros((basis.n_dofs(), self.n_samples()))
+        for cell in mesh.cells.get_leaves(subforest_flag=sf):
+            x = cell.reference_map(x_ref)
+            idx = basis.d2i(dofhandler.get_cell_dofs(cell))
+            fv[idx,:] = self.eval(x, cell=cell, derivative=derivative)
         #
         # Define new function
         #
-- 
2.43.0


From 68b8e762119f3e4a7d805cff457e3bf61397a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 24/92] fix: store the values of bivariate nodal functions in
 the order of the variables

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index 628b671..f041c77 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1695,7 +1695,7 @@ class Nodal(Map):
                 #
                 # Bivariate function
                 # 
-                cols, rows = np.mgrid[0:n_dofs,0:n_dofs]
+                rows, cols = np.mgrid[0:n_dofs,0:n_dofs]
                 x1,x2 = x[rows.ravel(),:], x[cols.ravel(),:]
                 
                 n_samples = fn.n_samples()                
-- 
2.43.0


From 6a85fdb4c6d6402533bd03a0bee2e5543afe5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 25/92] fix: evaluate shape functions at points mapped to the
 reference cell with roundoff

---
 src/fem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 53e0d59..3af0338 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -523,8 +523,9 @@ class QuadFE(Element):
         #
         # Points should lie in the reference domain
         #
-        assert all(x_ref.ravel() >= 0), 'All entries should be nonnegative.'
-        assert all(x_ref.ravel() <= 1), 'All entries should be at most 1.'
+        tol = 1e-9  # allow for roundoff in the reference map
+        assert all(x_ref.ravel() >= -tol), 'All entries should be nonnegative.'
+        assert all(x_ref.ravel() <= 1+tol), 'All entries should be at most 1.'
 
         if cell is not None:
             #
-- 
2.43.0


From 099ea4093ca891d67cebf03ac66c66f7ca58eba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 26/92] fix: replace a single rule of an explicit function

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index f041c77..dfd2aeb 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1446,7 +1446,7 @@ class Explicit(Map):
             assert callable(f), 'Input "f" should be callable.'
             assert type(parameters) is dict, \
             'Input "parameters" should be a dict.'
-            assert self.n_sample()>pos, \
+            assert self.n_samples()>pos, \
             'Input "pos" incompatible with sample size.'
             self.__f[pos] = f
             self.__parameters[pos] = parameters
-- 
2.43.0


From 7c69db1c1be373f96d51fd5033deccffef2c5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 27/92] fix: do not share the lists of rules and parameters
 with the caller

---
 src/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function.py b/src/function.py
index dfd2aeb..9a86648 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1507,8 +1507,8 @@ class Explicit(Map):
             # 
             # Store functions
             #
-            self.__f = f
-            self.__parameters = parameters
+            self.__f = list(f)
+            self.__parameters = list(parameters)
                             
             
     def add_rule(self, f, parameters={}):
-- 
2.43.0


From 5f7774162ba7bc7dda023b53fc253639d4f204e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 28/92] fix: do not change the caller's list of problems

---
 src/assembler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 5d912a7..88795da 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2087,7 +2087,8 @@ class Assembler(object):
                 #
                 # Multiple problems
                 #
-                for problem in problems:
+                problems = list(problems)  # leave the caller's list alone
+                for i_problem, problem in enumerate(problems):
                     if type(problem) is not list:
                         #
                         # Found problem not in list form
@@ -2096,7 +2097,7 @@ class Assembler(object):
                         #
                         # Convert form to problem
                         #
-                        problems[problems.index(problem)] = [problem]
+                        problems[i_problem] = [problem]
         else:
             #
             # Single form
-- 
2.43.0


From 1be96e757154cb2ec9ae7abf68929b7daf36ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 29/92] fix: interpolate integral forms at the dofs of their
 submesh

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 88795da..6f4323d 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1531,7 +1531,7 @@ class IIForm(Form):
         # Interpolate in the test function component
         # =====================================================================
         test = self.test
-        x = test.dofhandler().get_dof_vertices(test.subforest_flag())
+        x = test.dofhandler().get_dof_vertices(test.dofs())
         n = x.shape[0]
 
         # =====================================================================
-- 
2.43.0


From bd3af8702ecfbcf2235db35475acd6fc67ec86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 30/92] fix: assemble interpolated integral forms over every
 region of a cell, and zero where there is none

---
 src/assembler.py | 50 ++++++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 6f4323d..f508029 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1542,7 +1542,8 @@ class IIForm(Form):
         # Number of dofs
         n_dofs = trial.dofhandler().element.n_dofs()
 
-        f_loc = None
+        # Initialize local matrix (zero if the form has no regions in the cell)
+        f_loc = np.zeros((n,n_dofs))
         for reg in self.regions(cell):
             # Get trial functions evaluated at Gauss nodes
             phi_g = phi[reg][trial]
@@ -1550,39 +1551,30 @@ class IIForm(Form):
             w_g = wg[reg]
 
             #
-            # Initialize local matrix if necessary
+            # Evaluate covariance function at the local Gauss points
             #
-            if f_loc is None:
-                #
-                # Initialize form
-                #
-                f_loc = np.zeros((n,n_dofs))
-
-                #
-                # Evaluate covariance function at the local Gauss points
-                #
-                n_gauss = x_g.shape[0]
-                ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
-                x = (x[ii.ravel(),:],x_g[jj.ravel(),:])
-                """
-                if self.dim == 1:
-                    x1, x2 = x[ii.ravel()], x_g[jj.ravel()]
-                elif self.dim == 2:
+            n_gauss = x_g.shape[0]
+            ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
+            x_ij = (x[ii.ravel(),:],x_g[jj.ravel(),:])
+            """
+            if self.dim == 1:
+                x1, x2 = x[ii.ravel()], x_g[jj.ravel()]
+            elif self.dim == 2:
 
-                """
+            """
 
-                C_loc = self.kernel.eval(x, region=reg, cell=cell,
-                                         phi=phi[reg], dofs=dofs[reg])
-                C_loc = C_loc.reshape(n,n_gauss)
+            C_loc = self.kernel.eval(x_ij, region=reg, cell=cell,
+                                     phi=phi[reg], dofs=dofs[reg])
+            C_loc = C_loc.reshape(n,n_gauss)
 
-                #
-                # Compute local integral
-                #
-                # Weight shape functions
-                Wphi = np.diag(w_g).dot(phi_g)
+            #
+            # Compute local integral
+            #
+            # Weight shape functions
+            Wphi = np.diag(w_g).dot(phi_g)
 
-                # Combine
-                f_loc += C_loc.dot(Wphi)
+            # Combine
+            f_loc += C_loc.dot(Wphi)
         return f_loc
 
 
-- 
2.43.0


From 09f2d319a002fe0ae6b24601daa856bc734ebf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 31/92] fix: assemble projected integral forms as zero between
 cells without flagged regions

---
 src/assembler.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index f508029..014d987 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1666,7 +1666,12 @@ class IPForm(Form):
         # Sample size
         n_samples = self.kernel.n_samples()
 
-        f_loc = None
+        # Initialize local matrix (zero if the form has no regions in the cells)
+        if n_samples==1:
+            f_loc = np.zeros((n_dofsi,n_dofsj))
+        else:
+            f_loc = np.zeros((n_dofsi,n_dofsj,n_samples))
+
         for regi in self.regions(ci):
             for regj in self.regions(cj):
                 # Access test(i) and trial(j) functions
@@ -1685,17 +1690,6 @@ class IPForm(Form):
                 dofi = dofs[0][regi]
                 dofj = dofs[1][regj]
 
-                #
-                # Initialize local matrix if necessary
-                #
-                if f_loc is None:
-                    #
-                    # Initialize form
-                    #
-                    if n_samples==1:
-                        f_loc = np.zeros((n_dofsi,n_dofsj))
-                    else:
-                        f_loc = np.zeros((n_dofsi,n_dofsj,n_samples))
                 #
                 # Evaluate kernel function at the local Gauss points
                 #
-- 
2.43.0


From bf2043d76b6175d8501c7fb353d38997f9d724b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 32/92] fix: use the symmetry of a kernel only when trial and
 test functions agree

---
 src/assembler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 014d987..9401f5d 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2450,7 +2450,9 @@ class Assembler(object):
                             #
                             # Special efficiency when kernel is symmetric
                             #
-                            if form.kernel.is_symmetric():
+                            if form.kernel.is_symmetric() and \
+                                    form.test.same_dofs(form.trial) and \
+                                    form.test.derivative()==form.trial.derivative():
                                 if ci!=cj:
                                     #
                                     # Symmetric kernel, store the transpose
-- 
2.43.0


From 88227cc4c3d9eb33b4a1607264d26172531b1a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 33/92] fix: shape of a constant form that has no regions in a
 cell

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 9401f5d..5e332b7 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1366,7 +1366,7 @@ class Form(object):
                     #
                     # Sampled form
                     #
-                    f_loc = np.zeros(n_samples)
+                    f_loc = np.zeros((1,n_samples))
             elif self.type=='linear':
                 #
                 # Linear form
-- 
2.43.0


From a5984612bc3e768a010cecca6cd09677f7fe7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 34/92] fix: mix deterministic and sampled forms in one problem

---
 src/assembler.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 5e332b7..ea67865 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4067,6 +4067,12 @@ class AssembledForm(object):
             #    print(vals)
             
             if n_samples > 1:
+                if vals.ndim==2:
+                    #
+                    # Integral form without sample axis
+                    #
+                    vals = vals[:,:,np.newaxis]
+
                 if vals.shape[-1]==1:
                     #
                     # Single sample: Copy it 
@@ -4074,7 +4080,7 @@ class AssembledForm(object):
                     vals = np.tile(vals, (1,n_samples))
                 
             vals = vals.reshape((n_entries,n_samples), order='F')
-            
+
             """
             if n_samples > 1:
                 if len(vals.shape) == 1:
@@ -4088,6 +4094,11 @@ class AssembledForm(object):
                     # 
             """       
 
+        elif n_samples > 1 and vals.shape[-1]==1:
+            #
+            # Deterministic form in a sampled problem: Copy it
+            #
+            vals = np.tile(vals, (1,n_samples))
 
         # Update dofs
         for i in range(dim):
-- 
2.43.0


From d79135046ebed6019b96813f62091218aefc0e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 35/92] fix: order the rows and columns of assembled arrays by
 dof number

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index ea67865..a12cd9b 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4350,7 +4350,7 @@ class AssembledForm(object):
             #
             # Get unique dofs from data
             #
-            udofs.append(list(set(dofs[i])))
+            udofs.append(sorted(set(dofs[i])))
 
             #
             # Number of index vectors
-- 
2.43.0


From cd8d101d262464cb127481ce6d11b25a97ef4c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 36/92] fix: evaluate basis functions of a coarser submesh on
 the cell that carries them

---
 src/assembler.py | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index a12cd9b..9218394 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3513,17 +3513,55 @@ class Assembler(object):
                     #
                     element = basis.dofhandler().element
                     D = basis.derivative()
-                    jac_p2r = mg['jac_p2r'] if D[0] in [1,2] else None
-                    hess_p2r = mg['hess_p2r'] if D[0]==2 else None
 
-                    p = element.shape(x_ref=x_ref, derivatives=D, cell=cell,
-                                      jac_p2r=jac_p2r, hess_p2r=hess_p2r)
+                    # Cell on which the basis is defined (may be an ancestor)
+                    b_cell = cell.nearest_ancestor(basis.subforest_flag())
+                    x_b, mg_b = x_ref, mg
+                    if b_cell is not cell:
+                        x_b = self.map_to_ancestor(x_ref, cell, b_cell)
+                        dummy, mg_b = b_cell.reference_map(x_b, jac_p2r=True,
+                                                           hess_p2r=hess_p2r)
+
+                    b_jac = mg_b['jac_p2r'] if D[0] in [1,2] else None
+                    b_hess = mg_b['hess_p2r'] if D[0]==2 else None
+
+                    p = element.shape(x_ref=x_b, derivatives=D, cell=b_cell,
+                                      jac_p2r=b_jac, hess_p2r=b_hess)
                     phi[region][basis] = p
 
         # Return mapped quadrature nodes, weights, and shape functions
         return xg, wg, phi, dofs
 
 
+    def map_to_ancestor(self, x_ref, cell, ancestor):
+        """
+        Map points from the reference cell of 'cell' to that of its ancestor
+
+        Inputs:
+
+            x_ref: double, points on the reference cell of 'cell'
+
+            cell: Cell, containing the points
+
+            ancestor: Cell, containing 'cell'
+
+
+        Output:
+
+            x_ref: double, same points, on the reference cell of 'ancestor'
+        """
+        if self.mesh().dim()==1:
+            corners = [0,1]
+        else:
+            corners = [np.array([0,0]), np.array([1,0]),
+                       np.array([1,1]), np.array([0,1])]
+
+        while cell is not ancestor:
+            x_ref = 0.5*(corners[cell.get_node_position()] + x_ref)
+            cell = cell.get_parent()
+        return x_ref
+
+
     def add_dirichlet(self, dir_marker, dir_fn=0, on_bnd=True, i_problem=0):
         """
         Add a Dirichlet condition to a problem, i.e. a set of dofs and vals
-- 
2.43.0


From 8a626757e052aab4d90e027bd144e3f9f406a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 37/92] fix: use the derivatives of a kernel when it is
 assembled

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 9218394..53cebd8 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -956,7 +956,7 @@ class Kernel(object):
             if isinstance(f, Nodal):
                 phi_f = phi if phi is None else phi[f.basis()]
                 dof_f = None if dofs is None else dofs[f.basis()]
-                if dof_f is None or phi_f is None:
+                if dof_f is None or phi_f is None or dfdx is not None:
                     fv = f.eval(x=x, derivative=dfdx, cell=cell)
                 else:
                     fv = f.eval(x=x, derivative=dfdx, cell=cell, phi=phi_f,
-- 
2.43.0


From d3657ee4ebbb1acc0b6a31b2367a13c086e2d9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 38/92] fix: assemble constant forms at vertices

---
 src/assembler.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 53cebd8..7211003 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3479,21 +3479,23 @@ class Assembler(object):
                 #
                 xg[region], wg[region] = convert_to_array(region.coordinates()), 1
 
-                #
-                # Determine reference vertex corresponding to Vertex region
-                #
-                basis = list(shape_info[region])[0]
-                ref_cell = basis.dofhandler().element.reference_cell()
+                if len(shape_info[region])>0:
+                    # There are shape functions associated with region
+                    #
+                    # Determine reference vertex corresponding to Vertex region
+                    #
+                    basis = list(shape_info[region])[0]
+                    ref_cell = basis.dofhandler().element.reference_cell()
 
-                # Determine equivalent Vertex on reference element
-                i_v = cell.get_vertices().index(region)
-                v = ref_cell.get_vertex(i_v)
-                x_ref = convert_to_array(v, dim=v.dim())
+                    # Determine equivalent Vertex on reference element
+                    i_v = cell.get_vertices().index(region)
+                    v = ref_cell.get_vertex(i_v)
+                    x_ref = convert_to_array(v, dim=v.dim())
 
-                # Map to physical
-                xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
-                                                    jac_p2r=jac_p2r,
-                                                    hess_p2r=hess_p2r)
+                    # Map to physical
+                    xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
+                                                        jac_p2r=jac_p2r,
+                                                        hess_p2r=hess_p2r)
                 wg[region] = 1
             else:
                 raise Exception('Only Intervals, HalfEdges, Vertices & '+\
-- 
2.43.0


From 0dfcec25fc0bffc0fafc66972e8478f077d7c8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 39/92] fix: find the Dirichlet dofs of marked half-edges

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 7211003..7ad8c32 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3625,7 +3625,7 @@ class Assembler(object):
             #
             # Two dimensional mesh
             #
-            dir_dofs = dh.get_region_dofs(entity_type='vertex',
+            dir_dofs = dh.get_region_dofs(entity_type='half_edge',
                                           entity_flag=dir_marker,
                                           interior=False,
                                           on_boundary=on_bnd, \
-- 
2.43.0


From c23b308b156eb00bde909dac0170d5accbb3575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 40/92] fix: discard the results of a previous assembly

---
 src/assembler.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index 7ad8c32..e4c7830 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2343,6 +2343,14 @@ class Assembler(object):
         #t_reference_map = 0
 
 
+        #
+        # Discard the results of a previous assembly
+        #
+        for i_problem in range(self.n_problems()):
+            for aform in self.assembled_forms(i_problem):
+                if aform is not None:
+                    aform.clear()
+
         #
         # Assemble forms over mesh cells
         #
@@ -3951,6 +3959,14 @@ class AssembledForm(object):
         #
         # Initialize cellwise- and aggregate data
         #
+        self.clear()
+
+
+    def clear(self):
+        """
+        Discard all assembled data
+        """
+        dim = self.dim()
         self.__cellwise_data = {}
         self.__aggregate_data = {'dofs':[[] for dummy in range(dim)],
                                  'udofs': [],
-- 
2.43.0


From f139ca73dda0f335d9f47469adef1383104adc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 41/92] fix: keep the cellwise data that was asked for

---
 src/assembler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index e4c7830..c76d381 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4250,7 +4250,9 @@ class AssembledForm(object):
         if clear_cellwise_data:
             cell_data = self.__cellwise_data[cell]
         else:
-            cell_data = self.__cellwise_data[cell].copy()
+            cell_data = {'dofs': [list(dofs) for dofs in \
+                                  self.__cellwise_data[cell]['dofs']],
+                         'vals': list(self.__cellwise_data[cell]['vals'])}
 
         # Aggregate data
         data = self.__aggregate_data
-- 
2.43.0


From f7d785c463e869d83ac52160bf80321d9c77b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 42/92] fix: assembled Dirichlet term of a problem without
 Dirichlet dofs

---
 src/assembler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index c76d381..154c43b 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4458,7 +4458,7 @@ class AssembledForm(object):
             #
 
             # Dirichlet term
-            x0_dofs = dof2idx[0][self.__bnd['dofs']]
+            x0_dofs = dof2idx[0][np.array(self.__bnd['dofs'], dtype=int)]
             x0_vals = np.array(self.__bnd['vals'])
 
             # Matrix rows & cols
@@ -4479,6 +4479,8 @@ class AssembledForm(object):
                 # Form
                 if len(x0_dofs)>0:
                     x0.append(np.bincount(x0_dofs, x0_vals[:,i],n_rows))
+                else:
+                    x0.append(np.zeros(n_rows))
 
             # Store result
             self.__aggregate_data['array'] = A
-- 
2.43.0


From c2a9433b375219a0d2fe64367f8c9343813b21e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 43/92] fix: solve on submeshes and without Dirichlet dofs

---
 src/assembler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 154c43b..6cb7348 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3797,13 +3797,14 @@ class Assembler(object):
         # Solve linear system on interior dofs
         #
         int_dofs = self.get_dofs('interior', i_problem=i_problem)
-        u[int_dofs] = spla.spsolve(A,b-x0)
+        u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
 
         #
         # Resolve Dirichlet conditions
         #
         dir_dofs, dir_vals = self.get_dirichlet(i_problem=i_problem, asdict=False)
-        u[dir_dofs] = dir_vals[:,0]
+        if len(dir_dofs) > 0:
+            u[phi_lin.d2i(dir_dofs)] = dir_vals[:,0]
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
-- 
2.43.0


From 341d2ce1eb9f55fff9dcfc3580f629caac3aa84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 44/92] fix: boundary values given by a nodal function

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 6cb7348..169fe9c 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3655,7 +3655,7 @@ class Assembler(object):
             #
             # Nodal function whose dofs coincide with problem dofs
             #
-            idx = dir_fn.dof2idx(dir_dofs)
+            idx = dir_fn.basis().d2i(dir_dofs)
             dir_vals = dir_fn.data()[idx,:]
         else:
             #
-- 
2.43.0


From 7cf20f83b93799bae2f7aa3fab0cb6ec071004d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 45/92] fix: hanging nodes of the submesh carrying the trial
 functions

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 169fe9c..744a69e 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3704,7 +3704,7 @@ class Assembler(object):
 
         # Set hanging nodes
         self.__hanging_nodes[i_problem] \
-            = phi.dofhandler().get_hanging_nodes(subforest_flag=self.subforest_flag())
+            = phi.dofhandler().get_hanging_nodes(subforest_flag=phi.subforest_flag())
 
 
     def get_hanging_nodes(self, i_problem=0):
-- 
2.43.0


From 9abbb139c502b288190ae150c91de13068fb7339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 46/92] fix: degeneracy of a matrix from its size and rank

---
 src/spd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index afbd2a8..40c9003 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -113,7 +113,7 @@ class SPDMatrix(object):
         """
         assert isinstance(rank, int), 'Input "rank" should be an integer.'
         assert rank >= 0, 'Input "rank" should be non-negative.'
-        assert rank <= self.size(), 'Input "rank" should be less than or equal to the size of the matrix.'
+        assert rank <= self.get_size(), 'Input "rank" should be less than or equal to the size of the matrix.'
         self.__rank = rank
 
 
@@ -163,7 +163,7 @@ class SPDMatrix(object):
         - bool
             True if the matrix is degenerate, False otherwise.
         """
-        return self.rank() < self.size()
+        return self.get_rank() < self.get_size()
 
 
     def decompose(self):
-- 
2.43.0


From 6ef3007cb9ff0a67380806dbd0fb2899bb96c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 47/92] fix: eigendecomposition of sparse matrices

---
 src/spd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spd.py b/src/spd.py
index 40c9003..24ea9c9 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -897,7 +897,8 @@ class EigenDecomposition(SPDMatrix):
             # 
             C = self.get_matrix()
             eps = np.finfo(float).eps
-            delta = np.sqrt(eps)*linalg.norm(C, 'fro')
+            norm_C = spla.norm(C) if sp.issparse(C) else linalg.norm(C, 'fro')
+            delta = np.sqrt(eps)*norm_C
 
         # Check whether delta is non-negative
         assert delta >= 0, 'Input "delta" should be non-negative.'
@@ -949,6 +950,8 @@ class EigenDecomposition(SPDMatrix):
             #
             # Compute the generalized eigendecomposition
             # 
+            if sp.issparse(M):
+                M = M.toarray()
             d, V = linalg.eigh(C,M)
         else:
             #
-- 
2.43.0


From 285d7ca632321bfe15f5e41ba2e0ef8d58f151fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 48/92] fix: square root solves with a mass matrix

---
 src/spd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spd.py b/src/spd.py
index 24ea9c9..e465662 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -1114,11 +1114,18 @@ class EigenDecomposition(SPDMatrix):
             #
             # Solve sqrtD*V'x = b
             # 
-            return V.dot(sqrtD_inv.dot(b))
+            x = V.dot(sqrtD_inv.dot(b))
+            if self.has_mass_matrix():
+                # Inverse of V' is M*V
+                x = self.get_mass_matrix().dot(x)
+            return x
         else:
             #
             # Solve V*sqrtD x = b
             #
+            if self.has_mass_matrix():
+                # Inverse of V is V'*M
+                b = self.get_mass_matrix().dot(b)
             return sqrtD_inv.dot(np.dot(V.T, b))
 
 
-- 
2.43.0


From ddab1eb9c7a4ddf562d81eacbcf7daa0f5d630a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 49/92] fix: modified Cholesky factors of indefinite matrices

---
 src/spd.py | 114 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 96 insertions(+), 18 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index e465662..eeb85cb 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -421,7 +421,7 @@ class CholeskyDecomposition(SPDMatrix):
 
         n = max(C.shape)
 
-        L,D,p = linalg.ldl(C)  # @UndefinedVariable
+        L,D,p = self.ldl_rook(C)
         DMC = np.eye(n)
             
         # Modified Cholesky perturbations.
@@ -458,8 +458,9 @@ class CholeskyDecomposition(SPDMatrix):
                 temp = np.dot(U,np.dot(T,U.T))
                 DMC[k:k+2,k:k+2] = (temp + temp.T)/2  # Ensure symmetric.
                 k += 2
-        P = np.eye(n)
-        P = P[:,p]
+        
+        # Permutation so that P*A*P' = A[p,p] = L*D0*L'
+        P = np.eye(n)[p,:]
         
         #P = sp.diags([1],0,shape=(n,n), format='coo') 
         #P.row = P.row[p]
@@ -472,6 +473,74 @@ class CholeskyDecomposition(SPDMatrix):
         return L, DMC, P, D
 
 
+    @staticmethod
+    def ldl_rook(C):
+        """
+        LDL' factorization with symmetric rook pivoting, 
+        
+            C[p,:][:,p] = L*D*L', 
+            
+        where L is unit lower triangular with bounded entries (they can grow
+        without limit under the partial pivoting of scipy.linalg.ldl), and D is 
+        block diagonal, with 1-by-1 and 2-by-2 blocks.
+        """
+        A = np.array(C, dtype=float)
+        n = A.shape[0]
+        L = np.eye(n)
+        D = np.zeros((n,n))
+        p = np.arange(n)
+        alpha = (1 + np.sqrt(17))/8
+        
+        def swap(i,j):
+            if i != j:
+                A[[i,j],:] = A[[j,i],:]
+                A[:,[i,j]] = A[:,[j,i]]
+                L[[i,j],:k] = L[[j,i],:k]
+                p[[i,j]] = p[[j,i]]
+        
+        def largest_offdiagonal(j):
+            column = np.abs(A[k:,j])
+            column[j-k] = -1
+            i = np.argmax(column)
+            return k+i, column[i]
+            
+        k = 0
+        while k < n:
+            #
+            # Choose the pivot
+            # 
+            step = 1
+            if k < n-1:
+                i = k
+                r, lmd = largest_offdiagonal(k)
+                while lmd > 0 and np.abs(A[i,i]) < alpha*lmd:
+                    j, sgm = largest_offdiagonal(r)
+                    if np.abs(A[r,r]) >= alpha*sgm:
+                        # 1-by-1 pivot
+                        i = r
+                        break
+                    elif sgm <= lmd:
+                        # 2-by-2 pivot
+                        step = 2
+                        break
+                    i, r, lmd = r, j, sgm
+                swap(k,i)
+                if step == 2:
+                    swap(k+1, i if r == k else r)
+            #
+            # Eliminate
+            # 
+            m = k + step
+            E, B = A[k:m,k:m], A[m:,k:m]
+            D[k:m,k:m] = E
+            if np.any(B):
+                L[m:,k:m] = linalg.solve(E, B.T).T if step==2 else B/E
+                A[m:,m:] -= L[m:,k:m].dot(B.T)
+                A[m:,m:] = (A[m:,m:] + A[m:,m:].T)/2
+            k = m
+        return L, D, p
+
+
     def set_factors(self,L):
         """
         Store the Cholesky factorization
@@ -619,13 +688,24 @@ class CholeskyDecomposition(SPDMatrix):
             #
             # Use Modified Cholesky
             # 
-            L, D, P, dummy = self.get_factors()
-            PL = P.dot(L)
-            y = linalg.solve_triangular(PL,P.dot(b),lower=True, unit_diagonal=True)
-            Dinv = sp.diags(1./np.diagonal(D))
-            z = Dinv.dot(y)
-            x = linalg.solve_triangular(PL.T,z,lower=False,unit_diagonal=True)
-            return P.T.dot(x)
+            y = self.sqrt_solve(b)
+            return self.sqrt_solve(y, transpose=True)
+
+    @staticmethod
+    def sqrt_block_diagonal(D):
+        """
+        Returns the lower triangular matrix S, so that D = S*S', for a positive
+        definite matrix D with 1-by-1 and 2-by-2 diagonal blocks.
+        """
+        S = np.diag(np.sqrt(np.diagonal(D)))
+        for k in np.flatnonzero(np.diagonal(D,-1)):
+            #
+            # 2-by-2 block
+            #
+            S[k+1,k] = D[k+1,k]/S[k,k]
+            S[k+1,k+1] = np.sqrt(D[k+1,k+1]-S[k+1,k]**2)
+        return S
+
 
     def sqrt_dot(self,b,transpose=False):
         """
@@ -686,12 +766,12 @@ class CholeskyDecomposition(SPDMatrix):
             # Degenerate matrix: 0 < C+E = P'*L*D*L'*P = W*W'
             # 
             L, D, P, D0 = self.get_factors()
-            sqrtD = np.diag(np.sqrt(np.diag(D)))
+            sqrtD = self.sqrt_block_diagonal(D)
             if transpose:
                 #
                 # W'*b
                 # 
-                return sqrtD.dot(L.T.dot(P.dot(b)))
+                return sqrtD.T.dot(L.T.dot(P.dot(b)))
             else:
                 #
                 # W*b
@@ -757,22 +837,20 @@ class CholeskyDecomposition(SPDMatrix):
             #
             # Degenerate matrix
             #
-            #  C+E = P'*L*sqrtD*sqrtD*L'*P = W*W'
+            #  C+E = P'*L*sqrtD*sqrtD'*L'*P = W*W'
             # 
             L, D, P, D0 = self.get_factors()
-            sqrtD = np.diag(np.sqrt(np.diag(D)))
+            R = L.dot(self.sqrt_block_diagonal(D))
             if transpose:
                 #
                 # Solve W' x = b
                 # 
-                return P.T.dot(linalg.solve_triangular(sqrtD.dot(L.T),b,lower=False))
-                #return sqrtD.dot(linalg.solve_triangular(L.T,P.dot(b),lower=False))
+                return P.T.dot(linalg.solve_triangular(R.T,b,lower=False))
             else:
                 #
                 # Solve Wx = b
                 # 
-                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b)) 
-                #return P.T.dot(linalg.solve_triangular(L,sqrtD.dot(b),lower=True))
+                return linalg.solve_triangular(R,P.dot(b),lower=True) 
         
         """
         if self.chol_type() == 'sparse':
-- 
2.43.0


From 1f32ac35f0d52e28365d85cdd2c53310a3b7c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 50/92] fix: sill of Matern and anisotropic linear covariance

---
 src/gmrf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 0461cde..5612ba4 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -291,7 +291,7 @@ def linear(x,y,sgm=1, M=None):
             return sgm**2 + x*y
         else:
             assert isinstance(M,Real), 'Input "M" should be a scalar.'
-            return x*M*y
+            return sgm**2 + x*M*y
         
     elif dim==2:
         #
@@ -354,9 +354,9 @@ def matern(x, y, sgm, nu, l, M=None, periodic=False, box=None):
     K = sgm**2*2**(1-nu)/gamma(nu)*(np.sqrt(2*nu)*d/l)**nu*\
         kv(nu,np.sqrt(2*nu)*d/l)
     #
-    # Modified Bessel function undefined at d=0, covariance should be 1
+    # Modified Bessel function undefined at d=0, covariance should be sgm^2
     #
-    K[np.isnan(K)] = 1
+    K[np.isnan(K)] = sgm**2
     return K
     
     
-- 
2.43.0


From ef43dc3145c99a5f97f0c8ff47f0b9396e6340ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 51/92] fix: samples on a support, of several means and in
 canonical form

---
 src/gmrf.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 5612ba4..b42760f 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1343,19 +1343,27 @@ class GaussianField(object):
         #
         #  Compute sample   
         # 
+        V = self.support()
+        mean = self.mean(col=m_col)
         if mode=='covariance':
             #
             # Return Lz + mean
             #
             Lz = C.sqrt_dot(z,transpose=False)
-            return  Lz + np.tile(self.get_mean(),(1,n_samples))
+            if V is not None and V.shape[1]==n:
+                # Covariance on the support subspace
+                Lz = V.dot(Lz)
+            return  Lz + np.tile(mean,(1,n_samples))
     
         elif mode=='precision':
             #
             # Return L^{-T} z + mean
             #
             Lz = C.sqrt_solve(z,transpose=True)
-            return Lz + np.tile(self.get_mean(),(1,n_samples))
+            if V is not None and V.shape[1]==n:
+                # Precision on the support subspace
+                Lz = V.dot(Lz)
+            return Lz + np.tile(mean,(1,n_samples))
                                    
         elif mode=='canonical':
             #
@@ -1363,10 +1371,9 @@ class GaussianField(object):
             #
 
             # Compute the mean from the canonical mean
-            mean = self.get_mean()
-            if mean is None:
-                self.compute_mean()
-                mean = self.get_mean()
+            b = self.get_canonical_mean()
+            if b is not None:
+                mean = C.solve(b)
             Lz = C.sqrt_solve(z,transpose=True)
             return Lz + np.tile(mean,(1,n_samples))
 
-- 
2.43.0


From 2be8a0d46a906389161f7a32676a516bbcf3cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 52/92] fix: Karhunen-Loeve samples over a range of modes

---
 src/gmrf.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index b42760f..e372b5c 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1206,22 +1206,30 @@ class GaussianField(object):
         V = C.get_eigenvectors()
 
         # Determine eigenvalue range
+        n_dofs = C.get_size()
         if i_max is None:
-            i_max = self.size()-1
+            i_max = n_dofs-1
         assert i_max >= i_min, 'Index range should be non-empty.'
         
-        assert i_min >= 0 and i_max < self.size(), \
+        assert i_min >= 0 and i_max < n_dofs, \
             'Indices should be within the range of the covariance matrix.'
         
         # Sample 
+        n_modes = i_max-i_min+1
         if z is None:
-            z = np.random.normal(size=(self.size(), n_samples))
+            z = np.random.normal(size=(n_modes, n_samples))
         else:
-            assert z.shape[0] == i_max-i_min+1, \
-                'Input "z" should have the same number of rows as the random vector.'
+            assert z.shape[0] == n_modes, \
+                'Input "z" should have one row for every mode in the range.'
+            n_samples = z.shape[1]
 
         # Compute samples
-        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z[i_min:i_max+1,:])) + np.tile(mean,(1,n_samples))
+        Lz = V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z))
+        W = self.support()
+        if W is not None and W.shape[1]==n_dofs:
+            # Covariance on the support subspace
+            Lz = W.dot(Lz)
+        return Lz + np.tile(mean,(1,n_samples))
     
 
 
-- 
2.43.0


From 3f737a7ec3dca31eba661ca2a0a4e178f2f52200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 53/92] fix: truncated Gaussian fields

---
 src/gmrf.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index e372b5c..dba739b 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1257,23 +1257,24 @@ class GaussianField(object):
         assert level <= self.size(), \
             'The truncation level should be less than the fields dimension.'
             
-        # Extract the mean
-        mean = self.mean()
+        # Check that the covariance has an eigendecomposition
+        C = self.covariance()
+        assert isinstance(C, EigenDecomposition), \
+            'Covariance should have an eigendecomposition.'
         
         # Truncate the eigen-decomposition
-        d, V = self.covariance().get_eig_decomp()
-        dk = d[:level]
+        d, V = C.get_factors()
         Vk = V[:,:level]
+        W = self.support()
+        if W is not None and W.shape[1]==C.get_size():
+            # Covariance on the support subspace
+            Vk = W.dot(Vk)
         
-        # Define truncated Covariance matrix
-        K = SPDMatrix(Vk.dot(np.diag(dk)).dot(Vk.T))
-        K.set_eig_decomp(dk, Vk)
+        # Define truncated covariance matrix
+        K = EigenDecomposition(Vk.dot(np.diag(d[:level])).dot(Vk.T), delta=0)
         
         # Return Gaussian field with truncated covariance
-        tht = GaussianField(self.size(), mean=mean, K=K)
-        tht.set_support(Vk)
-        
-        return tht
+        return GaussianField(self.size(), mean=self.get_mean(), covariance=K)
         
     
     
-- 
2.43.0


From 369323668fbfe4cb372f89f388410bceed3aa910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 54/92] fix: covariance on a reduced support is a decomposition

---
 src/gmrf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index dba739b..e75faea 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1038,6 +1038,9 @@ class GaussianField(object):
             assert cov is not None, 'No covariance specified.'
             #if not cov.has_eig_decomp():
             #    cov.compute_eig_decomp(delta=0)
+            if not isinstance(cov, EigenDecomposition) or cov.has_mass_matrix():
+                # Orthonormal eigenvectors
+                cov = EigenDecomposition(cov.dot(np.eye(cov.get_size())), delta=0)
             d, V = cov.get_factors()
         elif mode=='precision':
             #
@@ -1060,7 +1063,7 @@ class GaussianField(object):
         
         # Update precision/covariance matrix
         if mode=='covariance':
-            self.__covariance = SPDMatrix(D)
+            self.__covariance = EigenDecomposition(D.toarray(), delta=0)
         elif mode=='precision':
             self.__precision = SPDMatrix(D)
         
-- 
2.43.0


From 49a9fdc5c8dac2a008750ebb3031a919896d53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 55/92] fix: conditioned Gaussian fields keep their degenerate
 covariance

---
 src/gmrf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index e75faea..06daebc 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1523,12 +1523,17 @@ class GaussianField(object):
                 
                 # Conditional covariance
                 U = linalg.solve(AKAT, KAT.T)
-                K_cnd = K.get_matrix() - KAT.dot(U)
+                I = np.identity(Vk.shape[1])
+                if mode=='covariance':
+                    K_cnd = K.dot(I) - KAT.dot(U)
+                elif mode=='precision':
+                    K_cnd = Q.solve(I) - KAT.dot(U)
                 K_cnd = Vk.dot(K_cnd.dot(Vk.T))
                 
                 print('K_cnd', K_cnd.shape)
                 print('K_cnd', K_cnd[0:10,0:10])
-                # Define random field 
+                # Define random field (degenerate: keep the zero eigenvalues)
+                K_cnd = EigenDecomposition(0.5*(K_cnd + K_cnd.T), delta=0)
                 X = GaussianField(self.size(), mean=mu_cnd, covariance=K_cnd)
                 X.update_support()
                 
-- 
2.43.0


From c0241d27044512cfb5b17bd662c9eda0c79bad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 56/92] fix: incomplete mesh files are refused, complete ones
 read to the end

---
 src/mesh.py | 80 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index db6e9aa..c1c0f10 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -5726,35 +5726,46 @@ class DCEL(object):
         for entity in [points, edges, faces]:
             entity['tags'] = {'phys': [], 'geom': [], 'partition': []}
 
+        def read_line(infile):
+            """
+            Return the next line of the file, which should not end here
+            """
+            line = infile.readline()
+            if line == '':
+                raise EOFError('Mesh file ends prematurely.')
+            return line.strip()
+
+        n_faces = None
         with open(file_path, 'r') as infile:
             while True:
                 line = infile.readline()
+                if line == '':
+                    break
+                line = line.strip()
                 #
                 #  Mesh format
                 #
-                if line == '$MeshFormat\n':
+                if line == '$MeshFormat':
                     # Read next line
-                    line = infile.readline()
-                    self.format = line.rstrip()
+                    line = read_line(infile)
+                    self.format = line
                     # TODO: Put an assert statement here to check version
-                    while line != '$EndMeshFormat\n':
-                        line = infile.readline()
+                    while line != '$EndMeshFormat':
+                        line = read_line(infile)
 
-                line = infile.readline()
                 #
                 #  Subregions
                 #
 
-                if line == '$PhysicalNames\n':
+                if line == '$PhysicalNames':
                     #
                     # Record number of subregions
                     #
-                    line = infile.readline()
-                    subregions['n'] = int(line.rstrip())
-                    line = infile.readline()
+                    line = read_line(infile)
+                    subregions['n'] = int(line)
+                    line = read_line(infile)
                     while True:
-                        if line == '$EndPhysicalNames\n':
-                            line = infile.readline()
+                        if line == '$EndPhysicalNames':
                             break
                         #
                         # Record names, dimensions, and tags of subregions
@@ -5764,23 +5775,24 @@ class DCEL(object):
                         subregions['names'].append(name)
                         subregions['dim'].append(int(words[0]))
                         subregions['tags'].append(int(words[1]))
-                        line = infile.readline()
+                        line = read_line(infile)
+                    if len(subregions['names']) != subregions['n']:
+                        raise ValueError('Mesh file: wrong number of names.')
                 # TODO: Is this necessary?
 
                 # =============================================================
                 # Cell Vertices
                 # =============================================================
-                if line == '$Nodes\n':
+                if line == '$Nodes':
                     #
                     # Record number of nodes
                     #
-                    line = infile.readline()
-                    points['n'] = int(line.rstrip())
-                    line = infile.readline()
+                    line = read_line(infile)
+                    points['n'] = int(line)
+                    line = read_line(infile)
 
                     while True:
-                        if line == '$EndNodes\n':
-                            line = infile.readline()
+                        if line == '$EndNodes':
                             break
                         #
                         # Record vertex coordinates
@@ -5788,15 +5800,18 @@ class DCEL(object):
                         words = line.split()
                         vtx = (float(words[1]),float(words[2]))
                         points['coordinates'].append(vtx)
-                        line = infile.readline()
+                        line = read_line(infile)
+                    if len(points['coordinates']) != points['n']:
+                        raise ValueError('Mesh file: wrong number of nodes.')
 
                 # =============================================================
                 #  Faces
                 # =============================================================
-                if line == '$Elements\n':
-                    next(infile)  # skip 'number of elements' line
-                    line = infile.readline()
+                if line == '$Elements':
+                    n_elements = int(read_line(infile))
+                    line = read_line(infile)
                     n_faces = 0  # count number of faces
+                    n_read = 0  # count number of elements
                     while True:
                         """
                         General format for elements
@@ -5839,11 +5854,11 @@ class DCEL(object):
                                      element belongs.
 
                         """
-                        if line == '$EndElements\n':
+                        if line == '$EndElements':
                             faces['n'] = n_faces
-                            line = infile.readline()
                             break
                         words = line.split()
+                        n_read += 1
                         #
                         # Identify entity
                         #
@@ -5926,6 +5941,9 @@ class DCEL(object):
                         # Record tags
                         #
                         num_tags = int(words[2])
+                        if not words[0].isdigit() or \
+                            len(words) != 3 + num_tags + dofs_per_entity:
+                            raise ValueError('Mesh file: malformed element.')
                         if num_tags > 0:
                             #
                             # Record Physical Entity tag
@@ -5968,10 +5986,13 @@ class DCEL(object):
                             connectivity = [int(words[i])-1 for i in \
                                             np.arange(i_begin,i_end) ]
                             entity['connectivity'].append(connectivity)
-                        line = infile.readline()
+                        line = read_line(infile)
+                    if n_read != n_elements:
+                        raise ValueError('Mesh file: wrong number of elements.')
+
+        if not n_faces:
+            raise ValueError('Mesh file contains no faces.')
 
-                if line == '':
-                    break
         #
         # Check for mixed Faces
         #
@@ -5987,8 +6008,7 @@ class DCEL(object):
         #
         # There are faces, dimension = 2
         #
-        if n_faces > 0:
-            self.__dim = 2
+        self.__dim = 2
 
 
     def determine_half_edges(self):
-- 
2.43.0


From 74814bc3350ff4ebea3b778bdc55779d556719a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 57/92] fix: node numbers, tags and names of mesh files

---
 src/mesh.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index c1c0f10..e8c2395 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -5770,7 +5770,7 @@ class DCEL(object):
                         #
                         # Record names, dimensions, and tags of subregions
                         #
-                        words = line.split()
+                        words = line.split(maxsplit=2)
                         name = words[2].replace('"','')
                         subregions['names'].append(name)
                         subregions['dim'].append(int(words[0]))
@@ -5791,6 +5791,8 @@ class DCEL(object):
                     points['n'] = int(line)
                     line = read_line(infile)
 
+                    # Node numbers need not be consecutive
+                    node_index = {}
                     while True:
                         if line == '$EndNodes':
                             break
@@ -5798,10 +5800,11 @@ class DCEL(object):
                         # Record vertex coordinates
                         #
                         words = line.split()
+                        node_index[int(words[0])] = len(points['coordinates'])
                         vtx = (float(words[1]),float(words[2]))
                         points['coordinates'].append(vtx)
                         line = read_line(infile)
-                    if len(points['coordinates']) != points['n']:
+                    if not len(node_index) == len(points['coordinates']) == points['n']:
                         raise ValueError('Mesh file: wrong number of nodes.')
 
                 # =============================================================
@@ -5944,7 +5947,7 @@ class DCEL(object):
                         if not words[0].isdigit() or \
                             len(words) != 3 + num_tags + dofs_per_entity:
                             raise ValueError('Mesh file: malformed element.')
-                        if num_tags > 0:
+                        if num_tags > 0 and 'phys' in entity['tags']:
                             #
                             # Record Physical Entity tag
                             #
@@ -5955,7 +5958,7 @@ class DCEL(object):
                             #
                             entity['tags'].pop('phys', None)
 
-                        if num_tags > 1:
+                        if num_tags > 1 and 'geom' in entity['tags']:
                             #
                             # Record Geometrical Entity tag
                             #
@@ -5966,7 +5969,7 @@ class DCEL(object):
                             #
                             entity['tags'].pop('geom', None)
 
-                        if num_tags > 2:
+                        if num_tags > 2 and 'partition' in entity['tags']:
                             #
                             # Record Mesh Partition tag
                             #
@@ -5983,7 +5986,7 @@ class DCEL(object):
                             #
                             i_begin = 3 + num_tags
                             i_end   = 3 + num_tags + dofs_per_entity
-                            connectivity = [int(words[i])-1 for i in \
+                            connectivity = [node_index[int(words[i])] for i in \
                                             np.arange(i_begin,i_end) ]
                             entity['connectivity'].append(connectivity)
                         line = read_line(infile)
-- 
2.43.0


From fb111ef05d3092e175db5f687b8ce8287c3f8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 58/92] fix: assemble and solve systems all of whose dofs are
 prescribed

---
 src/assembler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 744a69e..49ce36e 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3797,7 +3797,8 @@ class Assembler(object):
         # Solve linear system on interior dofs
         #
         int_dofs = self.get_dofs('interior', i_problem=i_problem)
-        u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
+        if len(int_dofs) > 0:
+            u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
 
         #
         # Resolve Dirichlet conditions
@@ -4419,7 +4420,8 @@ class AssembledForm(object):
             #
             # Dof-to-index mapping for interior dofs
             #
-            dof2idx.append(np.zeros(udofs[i][-1]+1, dtype=int))
+            n_map = udofs[i][-1]+1 if n_idx[i] > 0 else 0
+            dof2idx.append(np.zeros(n_map, dtype=int))
             dof2idx[i][udofs[i]] = np.arange(n_idx[i])
 
         #
@@ -4429,6 +4431,10 @@ class AssembledForm(object):
         vals = np.array(vals)
 
         n_samples = self.n_samples()
+        if len(vals) == 0:
+            # No entries, e.g. every dof is prescribed
+            vals = np.zeros((0, n_samples))
+
         if dim == 0:
             #
             # Constant (scalar)
-- 
2.43.0


From 9fec224782ac77ee93ee85b07b7226c9cef5044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 59/92] fix: points on downward slanted half-edges are
 contained in them

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index e8c2395..7f0d2f3 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2392,7 +2392,7 @@ class HalfEdge(Tree):
             # Discard points whose x-values don't lie on Edge
             in_half_edge[np.abs(p[:,0]-x0[0,0])>tol] = False
 
-        elif dim==1 or np.abs(v[1]<1e-14):
+        elif dim==1 or np.abs(v[1])<1e-14:
             #
             # Horizontal line
             #
-- 
2.43.0


From 8faa804d2460fdc8c2fe99bdd35a7d8f32c1b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 60/92] fix: sub-edge positions in vertical half-edges

---
 src/mesh.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 7f0d2f3..1ca2341 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2519,17 +2519,13 @@ class HalfEdge(Tree):
             'Input "subedge" not contained within HalfEdge.'
         
         #
-        # It suffices to work with x-coordinates
-        #  
-        # Get x-coordinates of reference HalfEdge 
-        x0_ref, dummy = self.base().coordinates()
-        x1_ref, dummy = self.head().coordinates()
-        
-        # Get x-coordinates of sub-edge base  
-        x0_sub, dummy = v0.coordinates()
+        # Project the sub-edge's base onto the HalfEdge
+        #
+        v = self.to_vector()
+        w = np.array(v0.coordinates()) - np.array(self.base().coordinates())
         
         # Compute position
-        pos = (x0_sub-x0_ref)/(x1_ref-x0_ref)
+        pos = np.dot(w,v)/np.dot(v,v)
         
         # Get relative length
         width = subedge.length()/self.length() 
-- 
2.43.0


From 3b283f38745df38865196d15dffeba4d17a3048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 61/92] fix: a quadrilateral cell's position within itself

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 1ca2341..a68864e 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3791,7 +3791,7 @@ class QuadCell(Cell, Tree):
                 rel_position += 2**(-(level+1))*sign[i]
         
         # Compute the width of the reference cell
-        width = 2**(-(level+1))
+        width = 2**(-len(rel_address))
         
         # Return result
         return rel_position, width
-- 
2.43.0


From 627b47cf5300dc080ec0008f63fb5a5b0a4e2725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 62/92] fix: refuse positions of intervals beyond the end of
 the interval

---
 src/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index a68864e..8cd1228 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3121,7 +3121,8 @@ class Interval(HalfEdge):
         # Compute the relative position
         pos = (y0 - x0)/(x1-x0)
         
-        assert (pos>=0) and (pos<=1), \
+        tol = 1e-10
+        assert (pos>=-tol) and (pos+width<=1+tol), \
             'Input "subcell" does not lie within the cell.'
             
         return pos, width 
-- 
2.43.0


From bcdb3fd4677fdebfcf106fcb808e919a60a1ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 63/92] fix: end points of half-edges are contained in them
 despite rounding

---
 src/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 8cd1228..699ad03 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2387,7 +2387,7 @@ class HalfEdge(Tree):
             t = (p[:,1]-x0[:,1])/v[1]
 
             # Discard points whose location parameter t is not in [0,1]
-            in_half_edge[np.abs(t-0.5)>0.5] = False
+            in_half_edge[np.abs(t-0.5)>0.5+tol] = False
 
             # Discard points whose x-values don't lie on Edge
             in_half_edge[np.abs(p[:,0]-x0[0,0])>tol] = False
@@ -2402,7 +2402,7 @@ class HalfEdge(Tree):
             t = (p[:,0]-x0[:,0])/v[0]
 
             # Check that t in [0,1]
-            in_half_edge[np.abs(t-0.5)>0.5] = False
+            in_half_edge[np.abs(t-0.5)>0.5+tol] = False
 
             if dim > 1:
                 # Check distance between y-values
@@ -2418,7 +2418,7 @@ class HalfEdge(Tree):
             in_half_edge[np.abs(t-s)>tol] = False
 
             # Check that location parameter lies in [0,1]
-            in_half_edge[np.abs(t-0.5)>0.5] = False
+            in_half_edge[np.abs(t-0.5)>0.5+tol] = False
 
         return in_half_edge
 
-- 
2.43.0


From fe82ca7120a3a800534db6fddb63ccd71eda0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 64/92] fix: inverse map of rectangular cells whose first side
 is vertical

---
 src/mesh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 699ad03..dc9e3f5 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3964,8 +3964,12 @@ class QuadCell(Cell, Tree):
                 #
                 # Cell is a rectangle - the inverse mapping is explicit
                 #
-                s = (x-p_sw_x)/(p_se_x-p_sw_x)
-                t = (y-p_sw_y)/(p_nw_y-p_sw_y)
+                # (the cell's first side may be vertical)
+                #
+                se_x, se_y = p_se_x-p_sw_x, p_se_y-p_sw_y
+                nw_x, nw_y = p_nw_x-p_sw_x, p_nw_y-p_sw_y
+                s = ((x-p_sw_x)*se_x + (y-p_sw_y)*se_y)/(se_x**2+se_y**2)
+                t = ((x-p_sw_x)*nw_x + (y-p_sw_y)*nw_y)/(nw_x**2+nw_y**2)
 
                 x_trg = np.array([s,t]).T
             else:
-- 
2.43.0


From 985094e5a708c1c3fbe15770a4befac725e0262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 65/92] fix: derivatives of shape functions on rectangular
 cells whose first side is vertical

---
 src/fem.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 3af0338..f3f9d54 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -465,6 +465,18 @@ class QuadFE(Element):
                 return self.__p[i1](x[:,0])*self.__pxx[i2](x[:,1])
 
 
+    @staticmethod
+    def reference_variable(i_var, jac_p2r):
+        """
+        Returns the index of the reference variable that changes in the
+        direction of the physical variable i_var, within a rectangular cell.
+        """
+        if len(jac_p2r)==0:
+            return i_var
+        J = jac_p2r[0]
+        return i_var if abs(J[i_var,i_var]) > abs(J[1-i_var,i_var]) else 1-i_var
+
+
     def shape(self, x_ref=None, cell=None, derivatives=(0,),
               jac_p2r=None, hess_p2r=None, local_dofs='all'):
         """
@@ -590,9 +602,10 @@ class QuadFE(Element):
                             #
                             # Rectangular cells are simpler
                             #
-                            dst_dxy = np.array([Ji[i_var,i_var] for Ji in jac_p2r])
+                            r_var = self.reference_variable(i_var, jac_p2r)
+                            dst_dxy = np.array([Ji[r_var,i_var] for Ji in jac_p2r])
                             for i in range(n_dofs_loc):
-                                p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var)
+                                p[:,i] = self.dphi(local_dofs[i], x_ref, var=r_var)
                                 p[:,i] = dst_dxy*p[:,i]
                         else:
                             #
@@ -629,11 +642,13 @@ class QuadFE(Element):
                             #
                             # Rectangular cell: mixed derivatives 0
                             #
-                            dri_dxi = np.array([Ji[i_var,i_var] for Ji in jac_p2r])
-                            drj_dxj = np.array([Ji[j_var,j_var] for Ji in jac_p2r])
+                            ri_var = self.reference_variable(i_var, jac_p2r)
+                            rj_var = self.reference_variable(j_var, jac_p2r)
+                            dri_dxi = np.array([Ji[ri_var,i_var] for Ji in jac_p2r])
+                            drj_dxj = np.array([Ji[rj_var,j_var] for Ji in jac_p2r])
                             for i in range(n_dofs_loc):
                                 p[:,i] = \
-                                    dri_dxi*drj_dxj*self.d2phi(local_dofs[i], x_ref, der[1:])
+                                    dri_dxi*drj_dxj*self.d2phi(local_dofs[i], x_ref, (ri_var,rj_var))
 
                         else:
                             #
-- 
2.43.0


From b1465242201d8baac4042d05a14c9d62be9a2143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 66/92] fix: second derivatives of the inverse map asked for
 without the first

---
 src/mesh.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index dc9e3f5..7ddb1f7 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -4022,7 +4022,7 @@ class QuadCell(Cell, Tree):
             # Initialize map gradients (mg) dictionary
             mg = {}
 
-            if jac_r2p or jac_p2r:
+            if jac_r2p or jac_p2r or hess_p2r:
                 #
                 # Compute Jacobian of the forward mapping
                 #
@@ -4037,17 +4037,18 @@ class QuadCell(Cell, Tree):
                 #
                 mg['jac_r2p'] = [np.array([[xs[i], xt[i]], [ys[i], yt[i]]])\
                                  for i in range(n)]
-            if jac_p2r:
-                #
-                # Jacobian of mapping from physical to reference region
-                #
-
+            if jac_p2r or hess_p2r:
                 # Compute matrix inverse of jacobian for backward mapping
                 Det = xs*yt-xt*ys
                 sx =  yt/Det
                 sy = -xt/Det
                 tx = -ys/Det
                 ty =  xs/Det
+
+            if jac_p2r:
+                #
+                # Jacobian of mapping from physical to reference region
+                #
                 mg['jac_p2r'] = [np.array([[sx[i], sy[i]],[tx[i], ty[i]]])\
                                  for i in range(n)]
             if hess_r2p:
-- 
2.43.0


From 3f76b87b4df131da420b7f716122cf15f6c597fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 67/92] fix: iterate the inverse map of a quadrilateral cell
 until it has converged

---
 src/mesh.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 7ddb1f7..409acd0 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3978,7 +3978,7 @@ class QuadCell(Cell, Tree):
                 #
                 # Initialize points in reference domain
                 s, t = 0.5*np.ones(n), 0.5*np.ones(n)
-                n_iterations = 5
+                n_iterations = 20
                 for dummy in range(n_iterations):
                     #
                     # Compute residual
@@ -4001,8 +4001,10 @@ class QuadCell(Cell, Tree):
                     # Newton Update:
                     #
                     Det = drx_ds*dry_dt - drx_dt*dry_ds
-                    s -= ( dry_dt*rx - drx_dt*ry)/Det
-                    t -= (-dry_ds*rx + drx_ds*ry)/Det
+                    ds = ( dry_dt*rx - drx_dt*ry)/Det
+                    dt = (-dry_ds*rx + drx_ds*ry)/Det
+                    s -= ds
+                    t -= dt
 
                     #
                     # Project onto [0,1]^2
@@ -4010,6 +4012,10 @@ class QuadCell(Cell, Tree):
                     s = np.minimum(np.maximum(s,0),1)
                     t = np.minimum(np.maximum(t,0),1)
 
+                    # Stop once all points have converged
+                    if np.all(np.maximum(abs(ds), abs(dt))<1e-14):
+                        break
+
                 x_trg = np.array([s,t]).T
 
         #
-- 
2.43.0


From 947105b20d10fd39cc6c5b545754cddb59937ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 68/92] fix: tolerance of Cell.contains_points relative to the
 domain's size

---
 src/mesh.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 409acd0..ecf0e9d 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3573,6 +3573,15 @@ class Cell(Tree):
         n_points = len(x)
         in_cell = np.ones(n_points, dtype=bool)
 
+        #
+        # Distances are compared with the size of the coarsest cell (so that
+        # children cover their parents) and the roundoff in the coordinates.
+        #
+        root = self.get_root() if isinstance(self, Tree) else self
+        v = convert_to_array(root.get_vertices())
+        tol = tol*np.max(np.ptp(v, axis=0)) + \
+            4*np.finfo(float).eps*np.max(np.abs(v))
+
         for half_edge in self.get_half_edges():
             #
             # Traverse vertices in counter-clockwise order
@@ -3582,7 +3591,7 @@ class Cell(Tree):
 
             # Determine which points lie outside cell
             pos_means_left = (y-y0)*(x1-x0)-( x-x0)*(y1-y0)
-            in_cell[pos_means_left<-tol] = False
+            in_cell[pos_means_left<-tol*np.hypot(x1-x0,y1-y0)] = False
 
         """
         if len(in_cell)==1:
-- 
2.43.0


From b4d7ce13c0b36f4e7860f06702cf84b47d9d689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 69/92] fix: tolerance of HalfEdge.contains_points relative to
 the edge's length

---
 src/mesh.py | 51 +++++++++++----------------------------------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index ecf0e9d..452f113 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2376,49 +2376,20 @@ class HalfEdge(Tree):
         dim = x0.shape[1]
         p = convert_to_array(points, dim)
         n_points = p.shape[0]
-        in_half_edge = np.ones(n_points, dtype=np.bool)
-        if np.abs(v[0])<tol:
-            #
-            # Vertical line
-            #
-            assert np.abs(v[1])>tol, 'Half-edge is too short'
-
-            # Locate y-coordinate along segment
-            t = (p[:,1]-x0[:,1])/v[1]
-
-            # Discard points whose location parameter t is not in [0,1]
-            in_half_edge[np.abs(t-0.5)>0.5+tol] = False
+        length = np.linalg.norm(v)
+        assert length>0, 'Half-edge is too short'
 
-            # Discard points whose x-values don't lie on Edge
-            in_half_edge[np.abs(p[:,0]-x0[0,0])>tol] = False
-
-        elif dim==1 or np.abs(v[1])<1e-14:
-            #
-            # Horizontal line
-            #
-            assert np.abs(v[0])>tol, 'Half-edge is too short'
-
-            # Locate x-coordinate along line
-            t = (p[:,0]-x0[:,0])/v[0]
-
-            # Check that t in [0,1]
-            in_half_edge[np.abs(t-0.5)>0.5+tol] = False
-
-            if dim > 1:
-                # Check distance between y-values
-                in_half_edge[np.abs(p[:,1]-x0[0,1])>tol] = False
-        else:
-            #
-            # Skew line
-            #
-            s = (p[:,0]-x0[:,0])/v[0]
-            t = (p[:,1]-x0[:,1])/v[1]
+        # Allow for roundoff in coordinates far from the origin
+        tol = tol + 4*np.finfo(float).eps*np.max(np.abs(x0)+np.abs(v))/length
 
-            # Check coordinates have same location parameters
-            in_half_edge[np.abs(t-s)>tol] = False
+        # Location parameters along the edge, and distances from it
+        t = np.dot(p-x0, v)/length**2
+        d = np.linalg.norm(p-x0-np.outer(t,v), axis=1)/length
 
-            # Check that location parameter lies in [0,1]
-            in_half_edge[np.abs(t-0.5)>0.5+tol] = False
+        # Points lie on the edge if t is in [0,1] and the distance is 0
+        in_half_edge = np.ones(n_points, dtype=bool)
+        in_half_edge[np.abs(t-0.5)>0.5+tol] = False
+        in_half_edge[d>tol] = False
 
         return in_half_edge
 
-- 
2.43.0


From db8af1d0972f574657cedf8045f7318ed7690355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 70/92] fix: parallel segments recognised whatever the unit of
 length

---
 src/mesh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 452f113..602d8dc 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2418,11 +2418,15 @@ class HalfEdge(Tree):
         q = np.array(line[0])
         s = np.array(line[1]) - q
 
-        if abs(np.cross(r,s)) < 1e-14:
+        # Roundoff, relative to the edge's length
+        r_norm, s_norm = np.linalg.norm(r), np.linalg.norm(s)
+        tol = 1e-14 + 4*np.finfo(float).eps*np.max(np.abs([p,q]))/r_norm
+
+        if abs(np.cross(r,s)) <= tol*r_norm*s_norm:
             #
             # Lines are parallel
             #
-            if abs(np.cross(q-p,r)) < 1e-14:
+            if abs(np.cross(q-p,r)) <= tol*r_norm*(r_norm+np.linalg.norm(q-p)):
                 #
                 # Lines are collinear
                 #
-- 
2.43.0


From 6b03852daf81a1ee4d155d649b7b4a256c249abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 71/92] fix: inverse map of short or far away half-edges

---
 src/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 602d8dc..296a23b 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2584,12 +2584,12 @@ class HalfEdge(Tree):
         if mapsto == 'physical':
             x_trg = [(x0 + (x1-x0)*xi, y0 + (y1-y0)*xi) for xi in x_in]
         elif mapsto == 'reference':
-            if not np.isclose(x0, x1):
+            if abs(x1-x0) >= abs(y1-y0):
                 #
                 # Not a vertical line
                 #
                 x_trg = list((x_in[:,0]-x0)/(x1-x0))
-            elif not np.isclose(y0, y1):
+            else:
                 #
                 # Not a horizontal line
                 #
-- 
2.43.0


From ec5195b39073ba112191b47d814aa5667f2f8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 72/92] fix: periodic sides matched relative to the size of the
 box

---
 src/mesh.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 296a23b..ccfe6e7 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6464,6 +6464,9 @@ class DCEL(object):
             # In 2D, must align vertices on both side of the box
             #
             x_min, x_max, y_min, y_max = box
+
+            # Tolerances are relative to the size of the box
+            x_tol, y_tol = 1e-6*(x_max-x_min), 1e-6*(y_max-y_min)
             if 0 in coordinates:
                 #
                 # Make periodic in the x-direction
@@ -6479,13 +6482,13 @@ class DCEL(object):
                         x_base, y_base = self.points['coordinates'][i_head]
                         x_head, y_head = self.points['coordinates'][i_base]
 
-                        if np.isclose(x_base,x_max) and np.isclose(x_head,x_max):
+                        if abs(x_base-x_max)<x_tol and abs(x_head-x_max)<x_tol:
                             #
                             # If x-values are near x_max, it's on the right
                             #
                             right_hes.append((he, y_base, y_head))
 
-                        elif np.isclose(x_base,x_min) and np.isclose(x_head,x_min):
+                        elif abs(x_base-x_min)<x_tol and abs(x_head-x_min)<x_tol:
                             #
                             # If x-values are near x_min, it's on the left
                             #
@@ -6506,7 +6509,7 @@ class DCEL(object):
                         # corresponding one on the right.
                         #
                         r_he, r_ybase, r_yhead = right_hes[ir]
-                        if np.isclose(l_ybase, r_yhead) and np.isclose(l_yhead, r_ybase):
+                        if abs(l_ybase-r_yhead)<y_tol and abs(l_yhead-r_ybase)<y_tol:
                             self.half_edges['twin'][l_he] = r_he
                             self.half_edges['twin'][r_he] = l_he
                             del right_hes[ir]
@@ -6531,13 +6534,13 @@ class DCEL(object):
                         x_base, y_base = self.points['coordinates'][i_head]
                         x_head, y_head = self.points['coordinates'][i_base]
 
-                        if np.isclose(y_base,y_max) and np.isclose(y_head,y_max):
+                        if abs(y_base-y_max)<y_tol and abs(y_head-y_max)<y_tol:
                             #
                             # If y-values are near y_max, it's on the top
                             #
                             top_hes.append((he, x_base, x_head))
 
-                        elif np.isclose(y_base,y_min) and np.isclose(y_head,y_min):
+                        elif abs(y_base-y_min)<y_tol and abs(y_head-y_min)<y_tol:
                             #
                             # If y-values are near y_min, it's on the bottom
                             #
@@ -6553,7 +6556,7 @@ class DCEL(object):
                         # corresponding one on the right.
                         #
                         t_he, t_xbase, t_xhead = top_hes[it]
-                        if np.isclose(t_xbase, b_xhead) and np.isclose(t_xhead, b_xbase):
+                        if abs(t_xbase-b_xhead)<x_tol and abs(t_xhead-b_xbase)<x_tol:
                             self.half_edges['twin'][b_he] = t_he
                             self.half_edges['twin'][t_he] = b_he
                             del top_hes[it]
-- 
2.43.0


From d5ed9470a322cdb758857b7738109271c9dd69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 73/92] fix: rectangles recognised whatever the unit of length

---
 src/mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index ccfe6e7..2da5f90 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3634,8 +3634,9 @@ class QuadCell(Cell, Tree):
             for i in range(4):
                 he = half_edges[i].to_vector()
                 he_nxt = half_edges[(i+1)%4].to_vector()
-                on_axis = min(abs(he)) <1e-12
-                perpendicular = abs(np.dot(he, he_nxt)) < 1e-12
+                h, h_nxt = np.linalg.norm(he), np.linalg.norm(he_nxt)
+                on_axis = min(abs(he)) < 1e-12*h
+                perpendicular = abs(np.dot(he, he_nxt)) < 1e-12*h*h_nxt
                 if  not (perpendicular and on_axis):
                     is_rectangle = False
                     break
-- 
2.43.0


From ec14deeae7bf766908e413306bc513a9c9c5c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 74/92] fix: allow for the roundoff of reference coordinates in
 domains far from the origin

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index f3f9d54..1a98235 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -535,7 +535,7 @@ class QuadFE(Element):
         #
         # Points should lie in the reference domain
         #
-        tol = 1e-9  # allow for roundoff in the reference map
+        tol = 1e-6  # allow for roundoff in the reference map
         assert all(x_ref.ravel() >= -tol), 'All entries should be nonnegative.'
         assert all(x_ref.ravel() <= 1+tol), 'All entries should be at most 1.'
 
-- 
2.43.0


From 764813149f0ced54473556362ab67fc4a911ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 75/92] fix: addresses follow trees planted in and removed from
 a forest

---
 src/mesh.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 2da5f90..20d7235 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -255,6 +255,7 @@ class Tree(object):
         self._forest = None
         self._in_forest = False
         self._node_position = position
+        self._children = []
 
         #
         # Set flags
@@ -472,6 +473,7 @@ class Tree(object):
         self._node_address = [position]
         self._in_forest = True
         self._forest = forest
+        self._update_progeny_addresses()
 
 
     def remove_from_forest(self):
@@ -482,6 +484,17 @@ class Tree(object):
         self._node_position = None
         self._node_address = []
         self._forest = None
+        self._update_progeny_addresses()
+
+
+    def _update_progeny_addresses(self):
+        """
+        Let the addresses of all sub-nodes follow a change in own address
+        """
+        for child in self.get_children():
+            child._node_address = self.get_node_address() \
+                + [child.get_node_position()]
+            child._update_progeny_addresses()
 
 
     def is_regular(self):
@@ -752,7 +765,13 @@ class Tree(object):
         Remove node (self) from parent's list of children
         """
         assert self.get_node_type() != 'ROOT', 'Cannot delete ROOT node.'
-        self.get_parent()._children[self._node_position] = None
+        parent = self.get_parent()
+        parent._children[self._node_position] = None
+        #
+        # Change parent's type from BRANCH to LEAF
+        #
+        if parent.get_node_type() == 'BRANCH' and not parent.has_children():
+            parent.set_node_type('LEAF')
 
 
     def add_child(self):
@@ -960,12 +979,18 @@ class Tree(object):
         Locate node by its address
         """
         node = self.get_root()
+        if node.in_forest():
+            #
+            # First entry of the address is the ROOT's position in the forest
+            #
+            return node.get_forest().find_node(list(address))
         if address != []:
             #
             # Not the ROOT node
             #
             for a in address:
-                if node.has_children() and a in range(node.n_children()):
+                if node is not None and node.has_children() \
+                    and a in range(node.n_children()):
                     node = node.get_child(a)
                 else:
                     return None
@@ -1335,7 +1360,7 @@ class Forest(object):
         node = self
         while len(address)>0:
             a = address.pop()
-            if node.has_children():
+            if node is not None and node.has_children():
                 if a not in range(node.n_children()):
                     return None
                 else:
@@ -1416,6 +1441,11 @@ class Forest(object):
         tree = self.get_child(position)
         tree.remove_from_forest()
         del self._trees[position]
+        #
+        # Subsequent trees move up
+        #
+        for i in range(position, len(self._trees)):
+            self._trees[i].plant_in_forest(self, i)
 
 
     def record(self, flag):
-- 
2.43.0


From 8b6607e5680487bd799b41cd9519625a882e76ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 76/92] fix: regions on the boundary of a periodic interval are
 empty

---
 src/mesh.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 20d7235..0b30c00 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6854,6 +6854,11 @@ class Mesh1D(Mesh):
             subforest_flag: str/int/tuple, mesh marker.
         """
         if on_boundary:
+            if self.is_periodic():
+                #
+                # Periodic meshes have no boundary: nothing to mark
+                #
+                return
             #
             # Entity adjacent to boundary
             #
@@ -6984,6 +6989,11 @@ class Mesh1D(Mesh):
         """
         region_entities = set()
         if on_boundary:
+            if self.is_periodic():
+                #
+                # Periodic meshes have no boundary: region is empty
+                #
+                return []
             #
             # Restrict region to boundary
             #
-- 
2.43.0


From d131e85e8b7bfbeedd6a5de9248470e15c3fd8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 77/92] fix: vertices of dofs as they appear in the cells named

---
 src/fem.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 1a98235..a23b72d 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2276,29 +2276,21 @@ class DofHandler(object):
             dofs = self.get_region_dofs(subforest_flag=subforest_flag)
         vertices = []
         for dof in dofs:
-            if len(self.__dof_vertices[dof])==1:
+            if cells is not None and dof in cells:
                 #
-                # Only one cell for given dof
+                # Cell specified, return the `right' vertex
                 #
-                for vertex in self.__dof_vertices[dof].values():
-                    vertices.append(vertex)
+                cell = cells[dof]
+                i = list(self.get_cell_dofs(cell)).index(dof)
+                x_ref = self.element.reference_nodes()
+                vertices.append(cell.reference_map(x_ref)[i,:])
             else:
                 #
-                # Multiple cells contain the same dof
+                # No cell specified, return the first vertex
                 #
-                if cells is not None:
-                    if dof in cells:
-                        #
-                        # If cell specified, return the `right' vertex
-                        #
-                        vertices.append(self.__dof_vertices[dof][cells[dof]])
-                else:
-                    #
-                    # No cell specified, return the first vertex
-                    #
-                    for vertex in self.__dof_vertices[dof].values():
-                        vertices.append(vertex)
-                        break
+                for vertex in self.__dof_vertices[dof].values():
+                    vertices.append(vertex)
+                    break
         if is_singleton:
             return vertices[0]
         else:
-- 
2.43.0


From 4127f5554613bd73ab8bf52be2d746bb5a9c60e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 78/92] fix: basis functions evaluated at physical points, and
 their derivatives

---
 src/fem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index a23b72d..d302951 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1183,11 +1183,16 @@ class Basis():
             #
             # Points lie in physical cell -> first map them to the reference
             # 
-            x = cell.reference_map(x)
+            x, mg = e_cell.reference_map(x, jac_p2r=True, hess_p2r=True,
+                                         mapsto='reference')
+        else:
+            _, mg = e_cell.reference_map(x, jac_p2r=True, hess_p2r=True,
+                                         mapsto='physical')
         #
         # Evaluate the Basis function at the given reference points
         #
-        phi = element.shape(x, derivatives=self.derivative(), cell=e_cell)
+        phi = element.shape(x, derivatives=self.derivative(), cell=e_cell,
+                            jac_p2r=mg['jac_p2r'], hess_p2r=mg['hess_p2r'])
         return phi
 
 
-- 
2.43.0


From 0093de77fbfe954b3008f91e891b7856ae7a0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 79/92] fix: sample size of a problem whose first form has one
 sample

---
 src/assembler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index 49ce36e..199e11c 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3130,6 +3130,8 @@ class Assembler(object):
                             # Kernel contains more than one sample.
                             # Check for consistency
                             #
+                            if n_samples == 1:
+                                n_samples = n_kernel_sample
                             assert n_samples == n_kernel_sample,\
                         '    Inconsistent sample sizes in kernels'
         return n_samples
-- 
2.43.0


From 49696ed16b3c67377d926c20b32cfb8c41ad6c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:41 +0000
Subject: [PATCH 80/92] fix: neighbours about a vertex on a periodic side

---
 src/mesh.py | 83 ++++++++++++++++++-----------------------------------
 1 file changed, 28 insertions(+), 55 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 0b30c00..5dece95 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3487,72 +3487,45 @@ class Cell(Tree):
             # =================================================================
             # Direction is determined by a Vertex
             # =================================================================
-            #
-            # Anti-clockwise
-            #
             neighbors = []
-            cell = self
-            while True:
-                #
-                # Get neighbor
+            for clockwise in [False, True]:
                 #
-                half_edge = cell.incident_half_edge(pivot)
-                neighbor = cell.get_neighbors(half_edge)
+                # Rotate about the vertex: anti-clockwise, then clockwise
                 #
-                # Move on
-                #
-                if neighbor is None:
-                    break
-                elif neighbor==self:
+                turned = []
+                cell, vertex = self, pivot
+                while True:
                     #
-                    # Full rotation or no neighbors
+                    # Get neighbor
                     #
-                    if flag is not None:
-                        return [nb for nb in neighbors if nb.is_marked(flag)]
-                    return neighbors
-                else:
+                    half_edge = cell.incident_half_edge(vertex,
+                                                        reverse=clockwise)
+                    neighbor = cell.get_neighbors(half_edge)
+                    if neighbor is None:
+                        break
                     #
-                    # Got at neighbor!
+                    # Pivot, as it appears in the neighbor (they may differ
+                    # across a periodic boundary)
                     #
-                    neighbors.append(neighbor)
+                    twin = half_edge.twin()
+                    vertex = twin.head() if clockwise else twin.base()
                     cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
-            #
-            # Clockwise
-            #
-            neighbors_clockwise = []
-            cell = self
-            while True:
-                #
-                # Get neighbor
-                #
-                half_edge = cell.incident_half_edge(pivot, reverse=True)
-                neighbor = cell.get_neighbors(half_edge)
+                    if cell==self and vertex==pivot:
+                        #
+                        # Full rotation
+                        #
+                        break
+                    if cell!=self and cell not in neighbors+turned:
+                        #
+                        # Got a neighbor
+                        #
+                        turned.append(cell)
                 #
-                # Move on
+                # Combine anti-clockwise and clockwise neighbors
                 #
-                if neighbor is None:
+                neighbors.extend(reversed(turned) if clockwise else turned)
+                if neighbor is not None:
                     break
-                elif neighbor==self:
-                    #
-                    # Full rotation or no neighbors
-                    #
-                    if flag is not None:
-                        return [nb for nb in neighbors if nb.is_marked(flag)]
-                    return neighbors
-                else:
-                    #
-                    # Got a neighbor
-                    #
-                    neighbors_clockwise.append(neighbor)
-                    cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
-            #
-            # Combine clockwise and anticlockwise neighbors
-            #
-            neighbors.extend(reversed(neighbors_clockwise))
             if flag is not None:
                 return [nb for nb in neighbors if nb.is_marked(flag)]
             else:
-- 
2.43.0


From 60c90d007be7efdf3758ef9d8ef344d3c79acc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:12 +0000
Subject: [PATCH 81/92] fix: level-wise neighbours of intervals

---
 src/mesh.py | 84 +++++++++++++++--------------------------------------
 1 file changed, 23 insertions(+), 61 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 5dece95..a18137a 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2792,73 +2792,35 @@ class Interval(HalfEdge):
                 #
                 # Left neighbor
                 #
-                nbr = self.previous()
-                if nbr is None:
-                    #
-                    # No previous, may still be periodic
-                    #
-                    v = self.base()
-                    if v.is_periodic():
-                        #
-                        # Get coarsest cell periodically associated with v
-                        #
-                        for pair in v.get_periodic_pair():
-                            nbr, dummy = pair
-                            while nbr.get_depth()<self.get_depth():
-                                #
-                                # Search children until depth matches
-                                #
-                                if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(0)
-                                else:
-                                    #
-                                    # There are no children at same depth as interval
-                                    #
-                                    return None
-                                #
-                                # Found nbr at correct depth
-                                #
-                            return nbr
-                else:
-                    #
-                    # Return previous interval
-                    #
-                    return nbr
+                nbr, v, i_child = self.previous(), self.base(), -1
             elif pivot == 1:
                 #
                 # Right neighbor
                 #
-                nbr = self.next()
-                if nbr is None:
-                    #
-                    # No next, may still be periodic
-                    #
-                    v = self.head()
-                    if v.is_periodic():
-                        #
-                        # Get coarsest cell periodically associated with v
-                        #
-                        for pair in v.get_periodic_pair():
-                            nbr, dummy = pair
-                            while nbr.get_depth()<self.get_depth():
-                                #
-                                # Iterate through children until depth matches
-                                #
-                                if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(1)
-                                else:
-                                    #
-                                    # There are no cells matching cell's depth
-                                    #
-                                    return None
-                                #
-                                # Found nbr at correct depth
-                                #
-                            return nbr
-                else:
+                nbr, v, i_child = self.next(), self.head(), 0
+
+            if nbr is not None:
+                #
+                # Return previous/next interval
+                #
+                return nbr
+            elif self.has_parent():
+                #
+                # Look among the children of parent's neighbor
+                #
+                nbr = self.get_parent().get_neighbor(pivot, mode=mode,
+                                                     subforest_flag=subforest_flag)
+                if nbr is None or not nbr.has_children(flag=subforest_flag):
                     #
-                    # Return next interval
+                    # There is no cell at the same depth as interval
                     #
+                    return None
+                return list(nbr.get_children())[i_child]
+            elif v.is_periodic():
+                #
+                # No previous/next, but periodic
+                #
+                for nbr, dummy in v.get_periodic_pair():
                     return nbr
 
         elif mode=='physical':
-- 
2.43.0


From 9e4b5efee66aaa7d298ceaff3857f20d9b2179cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:12 +0000
Subject: [PATCH 82/92] fix: dofs of a cell that is its own neighbor

---
 src/fem.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index d302951..84abf5a 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1448,7 +1448,7 @@ class DofHandler(object):
             own_neighbor = False
             if dim==1:
                 for vertex in cell.get_vertices():
-                    nb = cell.get_neighbor(vertex)
+                    nb = cell.get_neighbor(vertex, mode='level-wise')
                     if nb == cell:
                         own_neighbor = True
                         break
@@ -1465,9 +1465,9 @@ class DofHandler(object):
             #
             # Assign dofs to vertices
             #
+            dofs = []
             dpv = self.element.n_dofs('vertex')
             if dpv != 0:
-                dofs = []
                 for vertex in cell.get_vertices():
                     # Refill dofs to be assigned
                     while len(dofs)<dpv:
@@ -1481,9 +1481,7 @@ class DofHandler(object):
 
                     # Throw out used dofs
                     vertex_dofs = self.get_cell_dofs(cell, vertex)
-                    for dof in dofs:
-                        if dof in vertex_dofs:
-                            dofs.pop(dofs.index(dof))
+                    dofs = [dof for dof in dofs if dof not in vertex_dofs]
             if dim==1:
                 #
                 # 1D Mesh: Fill in interior
@@ -1499,6 +1497,10 @@ class DofHandler(object):
                     # Assign new dofs to interval
                     self.assign_dofs(dofs, cell, cell)
 
+                    # Throw out used dofs
+                    cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
+                    dofs = [dof for dof in dofs if dof not in cell_dofs]
+
             elif dim==2:
                 #
                 # Assign dofs to HalfEdges
@@ -1539,9 +1541,7 @@ class DofHandler(object):
 
                     # Throw out used dofs
                     cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
-                    for dof in dofs:
-                        if dof in cell_dofs:
-                            dofs.pop(dofs.index(dof))
+                    dofs = [dof for dof in dofs if dof not in cell_dofs]
 
             # Subtract unused dofs from total dof count
             count -= len(dofs)
-- 
2.43.0


From 6d005611ca77fda9c4be0d00e56c7e1677a7c3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 83/92] fix: values on a cell with a repeated dof

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index 9a86648..7deadb7 100644
--- a/src/function.py
+++ b/src/function.py
@@ -2071,7 +2071,7 @@ class Nodal(Map):
                 Phi.append(np.zeros((n_points, n_basis)))
                 for phi, i_pt, dof in zip(phis[i], pidx[i], dofs[i]):
                     i_col = [udofs[i].index(d) for d in dof]
-                    Phi[i][np.ix_(i_pt, i_col)] = phi
+                    np.add.at(Phi[i], np.ix_(i_pt, i_col), phi)
             
                 assert Phi[i].shape[1]==n_basis
             #
-- 
2.43.0


From 30f721eb790027d9ac8b589350f4c3dac904c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 84/92] fix: hanging nodes supported twice by one dof

---
 src/fem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 84abf5a..ad9e135 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2549,7 +2549,8 @@ class DofHandler(object):
                         i_supp_dofs = set()
                         for v in coarse_vertices:
                             i_supp_dofs.add(v.get_pos(0))
-                        supporting_dofs = [dofs[i] for i in i_supp_dofs]
+                        # (a cell that is its own neighbor may repeat a dof)
+                        supporting_dofs = list(dict.fromkeys(dofs[i] for i in i_supp_dofs))
                         #
                         # Determine the hanging nodes
                         #
@@ -2568,8 +2569,9 @@ class DofHandler(object):
 
                                     # Compute constraint coefficients
                                     constraint_coefficients = []
-                                    for i in i_supp_dofs:
-                                        constraint_coefficients.append(self.element.phi(i, v)[0])
+                                    for dof in supporting_dofs:
+                                        constraint_coefficients.append(
+                                            sum(self.element.phi(i, v)[0] for i in i_supp_dofs if dofs[i]==dof))
                                     #constraint_coefficients = np.array(constraint_coefficients)
 
                                     # Store in dictionary
-- 
2.43.0


From 83e09df6c798eba429a53daf05d29a65ae7b5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:23 +0000
Subject: [PATCH 85/92] fix: higher order and unknown elements in gmsh files

---
 src/mesh.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index a18137a..16760d8 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -5831,7 +5831,7 @@ class DCEL(object):
                             dofs_per_entity = 1
                             entity = points
 
-                        if element_type==1:
+                        elif element_type==1:
                             #
                             # Linear edge (2 nodes)
                             #
@@ -5897,6 +5897,9 @@ class DCEL(object):
                             entity['type'].append('quadrilateral')
                             n_faces += 1
 
+                        else:
+                            raise ValueError('Mesh file: unknown element type.')
+
                         entity['n_dofs'] = dofs_per_entity
                         #
                         # Record tags
@@ -5946,7 +5949,16 @@ class DCEL(object):
                             i_end   = 3 + num_tags + dofs_per_entity
                             connectivity = [node_index[int(words[i])] for i in \
                                             np.arange(i_begin,i_end) ]
-                            entity['connectivity'].append(connectivity)
+                            #
+                            # Only the corners (listed first) are stored
+                            #
+                            if entity is edges:
+                                n_corners = 2
+                            elif entity['type'][-1] == 'triangle':
+                                n_corners = 3
+                            else:
+                                n_corners = 4
+                            entity['connectivity'].append(connectivity[:n_corners])
                         line = read_line(infile)
                     if n_read != n_elements:
                         raise ValueError('Mesh file: wrong number of elements.')
-- 
2.43.0


From cd08d44e017f9302071c1c52da5f6631486b3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 86/92] fix: canonical mean b()

---
 src/gmrf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 06daebc..ab88ecd 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1131,9 +1131,9 @@ class GaussianField(object):
         """
         Returns the vector of central tendency in canonical form
         """
-        if self.__b is None:
-            self.set_b()
-        return self.__b
+        if self.get_canonical_mean() is None:
+            self.compute_canonical_mean()
+        return self.get_canonical_mean()
 
 
     def covariance(self):
-- 
2.43.0


From 2dd75bcf2c6d7f0a8ea4b549937eed949f036529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:39 +0000
Subject: [PATCH 87/92] fix: support of a field given by its precision

---
 src/gmrf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index ab88ecd..d835246 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1048,9 +1048,10 @@ class GaussianField(object):
             # 
             prec = self.precision()
             assert prec is not None, 'No precision specified'
-            if not prec.has_eig_decomp():
-                prec.compute_eig_decomp(delta=0)
-            d, V = prec.compute_eig_decomp()
+            if not isinstance(prec, EigenDecomposition) or prec.has_mass_matrix():
+                # Orthonormal eigenvectors
+                prec = EigenDecomposition(prec.dot(np.eye(prec.get_size())), delta=0)
+            d, V = prec.get_factors()
         else:
             raise Exception('Input "mode" should be "covariance" or "precision"')
         
@@ -1065,7 +1066,7 @@ class GaussianField(object):
         if mode=='covariance':
             self.__covariance = EigenDecomposition(D.toarray(), delta=0)
         elif mode=='precision':
-            self.__precision = SPDMatrix(D)
+            self.__precision = EigenDecomposition(D.toarray(), delta=0)
         
         # Define new set of support vectors
         W = self.support()
-- 
2.43.0


From af72a8e3097c144e4304bb5f1400e31235ee9ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:45 +0000
Subject: [PATCH 88/92] fix: nodal functions share the caller's array

---
 src/function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/function.py b/src/function.py
index 7deadb7..e496fa7 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1668,6 +1668,9 @@ class Nodal(Map):
             if len(data.shape)<2:
                 # Data passed as a 1D array, convert to matrix 
                 data = data[:,None]
+                
+            # Later modifications should not affect the caller's array
+            data = np.array(data)
                     
         elif f is not None:
             #
-- 
2.43.0


From bd712170f7951680ea197242804fcab5025f768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:49 +0000
Subject: [PATCH 89/92] fix: add samples to bivariate nodal functions

---
 src/function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/function.py b/src/function.py
index e496fa7..750faa6 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1771,11 +1771,11 @@ class Nodal(Map):
             assert n_dofs==self.basis().dofhandler().n_dofs(subforest_flag=sf),\
                 'Data size is not consistent'
             
-            # Convert 1D data array to to 2D
-            if len(data.shape)==1:
-                data = data[:,None]
+            # Add the sample axis, if necessary
+            if len(data.shape)==self.n_variables():
+                data = data[...,None]
             
-            new_data = np.append(self.data(),data,axis=1)
+            new_data = np.append(self.data(),data,axis=-1)
             self.set_data(new_data)
             
     
-- 
2.43.0


From be4a0cb74e57528abac7a1e0e579e2967bba9962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:37 +0000
Subject: [PATCH 90/92] fix: solve for several loads, with the sample's
 Dirichlet values

---
 src/assembler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 199e11c..79eb1b9 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3793,21 +3793,22 @@ class Assembler(object):
         #
         # Initialize solution array
         #
-        u = np.zeros(n_dofs)
+        u = np.zeros((n_dofs,) + b.shape[:-1])
 
         #
         # Solve linear system on interior dofs
         #
         int_dofs = self.get_dofs('interior', i_problem=i_problem)
         if len(int_dofs) > 0:
-            u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
+            u[phi_lin.d2i(int_dofs)] = \
+                spla.spsolve(A,(b-x0).T).reshape((-1,) + b.shape[:-1])
 
         #
         # Resolve Dirichlet conditions
         #
-        dir_dofs, dir_vals = self.get_dirichlet(i_problem=i_problem, asdict=False)
-        if len(dir_dofs) > 0:
-            u[phi_lin.d2i(dir_dofs)] = dir_vals[:,0]
+        for dof, vals in self.get_dirichlet(i_problem=i_problem).items():
+            # Dirichlet values of the matrix' sample
+            u[phi_lin.d2i(dof)] = vals[i_matrix if len(vals)>1 else 0]
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
-- 
2.43.0


From 14a67a9fbfaeb3ef618370ee591fe32ff3308f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:35 +0000
Subject: [PATCH 91/92] fix: resolve constraints on a copy, with the vector's
 own samples

---
 src/solver.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 7f9ae64..581a177 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -811,7 +811,15 @@ class LinearSystem(object):
         # 
         C, d = self.get_C(), self.get_d()
         
-        n_samples = self.n_rhs()
+        #
+        # Work with an array of one's own
+        # 
+        if sparse.issparse(u):
+            u = u.toarray()
+        else:
+            u = np.array(u)
+        
+        n_samples = u.shape[1]
         drep = np.tile(d[:, np.newaxis], (1,n_samples))
         
         #
@@ -820,11 +828,6 @@ class LinearSystem(object):
         sf = self.get_basis().subforest_flag()
         n_dofs = self.get_dofhandler().n_dofs(subforest_flag=sf)
         ec_dofs = [i for i in range(n_dofs) if C.getrow(i).nnz==0]        
-        if type(u) is not np.ndarray:
-            #
-            # Convert to ndarray if necessary
-            # 
-            u = u.toarray()
         u[ec_dofs,:] = drep[ec_dofs,:]
         u = C.dot(u) + drep
               
-- 
2.43.0


From f1c9f26e3819a69a44c33cf9a8f64b75f4df2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:41 +0000
Subject: [PATCH 92/92] fix: coincidence of dof vertices relative to the cell's
 size

---
 src/fem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index ad9e135..e6fc256 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2245,6 +2245,10 @@ class DofHandler(object):
                 # Compute cell vertices
                 x = cell.reference_map(x_ref)
 
+                # Distance below which points coincide (relative to cell size)
+                v = np.array([v.coordinates() for v in cell.get_vertices()])
+                tol = 1e-6*np.max(np.ptp(v, axis=0))
+
                 # Add vertices to dictionary
                 for i in range(len(dofs)):
                     dof = dofs[i]
@@ -2252,8 +2256,8 @@ class DofHandler(object):
                         self.__dof_vertices[dof] = {}
                         self.__dof_vertices[dof][cell] = x[i,:]
                     else:
-                        if any([np.allclose(x[i,:], vertex) for vertex in \
-                                self.__dof_vertices[dof].values()]):
+                        if any([np.max(np.abs(x[i,:]-vertex)) <= tol for vertex\
+                                in self.__dof_vertices[dof].values()]):
                             #
                             # Periodic vertex
                             #
-- 
2.43.0

