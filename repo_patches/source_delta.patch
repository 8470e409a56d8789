From 7d4f6e74b04847baffb21f45aa65731ad815f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 01/28] fix: eigvals crashed on a null tensor with NumPy 2

np.NaN was removed in NumPy 2.0; principal_dirs raised AttributeError as
soon as a point of the field had a (numerically) null tensor.
---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 700a692..7c53303 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -596,8 +596,8 @@ def eigvals(mat, tol=1e-6):
     if np.abs(mat).max() < tol:
         eig1 = 0.0
         eig2 = 0.0
-        vec1 = np.array([np.NaN, np.NaN])
-        vec2 = np.array([np.NaN, np.NaN])
+        vec1 = np.array([np.nan, np.nan])
+        vec2 = np.array([np.nan, np.nan])
     elif abs(mat[0, 1])/np.abs(mat).max() < tol:
         eig1 = mat[0, 0]
         eig2 = mat[1, 1]
-- 
2.43.0


From d259195994f14579dbbbd84c066fafdab905cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 02/28] fix: str_el3 left the strains of two of its three
 points at zero

The one-point rule fills a single row, so the nodal strains of 3-noded
triangles were averaged with zeros.
---
 solidspy/femutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index d13dd1b..bbb31dc 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -701,7 +701,7 @@ def str_el3(coord, ul):
     """
     epsG = np.zeros([3, 3])
     xl = np.zeros([3, 2])
-    gpts, _ = gau.gauss_tri(order=1)
+    gpts, _ = gau.gauss_tri(order=2)
     for i in range(gpts.shape[0]):
         ri, si =  gpts[i, :]
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
-- 
2.43.0


From 53ba6e7b5efaae636b723a05629805b9ec36e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 03/28] fix: element strain routines reported x as the y
 position of Gauss points

---
 solidspy/femutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index bbb31dc..0eced87 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -707,7 +707,7 @@ def str_el3(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -739,7 +739,7 @@ def str_el6(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri6)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -771,7 +771,7 @@ def str_el4(coord, ul):
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
-- 
2.43.0


From 43318cf2823a69e2bffe23b2df238d834320b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 04/28] fix: nodal strains of 4-noded quads were taken from
 other nodes' points

The tensor-product rule runs fastest over s while the nodes run
counterclockwise, so three of the four nodes got the strain of a Gauss
point next to another node.
---
 solidspy/femutil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 0eced87..5400dbe 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -766,6 +766,8 @@ def str_el4(coord, ul):
     epsG = np.zeros([3, 4])
     xl = np.zeros([4, 2])
     gpts, _ = gau.gauss_nd(2)
+    # Same (counterclockwise) order as the nodes of the element
+    gpts = gpts[[0, 2, 3, 1]]
     for i in range(gpts.shape[0]):
         ri, si = gpts[i, :]
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
-- 
2.43.0


From 6b441c64b620d827e18b5f251fc701f0a791ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 05/28] fix: strain_nodes failed for materials that give the
 optional density

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 7c53303..289fac2 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -369,7 +369,7 @@ def strain_nodes(nodes, elements, mats, sol_complete):
     IELCON = elements[:, 3:]
 
     for el in range(nelems):
-        young, poisson = mats[int(elements[el, 2]), :]
+        young, poisson = mats[int(elements[el, 2]), :2]
         shear = young/(2*(1 + poisson))
         fact1 = young/(1 - poisson**2)
         fact2 = poisson*young/(1 - poisson**2)
-- 
2.43.0


From 11152224af7f5aed9d649495c9eb865be41857e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 06/28] fix: loadasem dropped all but the last load given for a
 node

Point loads on the same node have to be added, e.g., for a corner that
belongs to two loaded lines.
---
 solidspy/assemutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 9249e74..a2e33fb 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -321,7 +321,7 @@ def loadasem(loads, bc_array, neq, ndof_node=2):
         for dof in range(ndof_node):
             dof_id = bc_array[node, dof]
             if dof_id != -1:
-                rhs_vec[dof_id] = loads[cont, dof + 1]
+                rhs_vec[dof_id] += loads[cont, dof + 1]
     return rhs_vec
 
 
-- 
2.43.0


From 29ec784aa8c8585c1a3e9ae77a47717c180ee7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 07/28] fix: spring returned a mass vector instead of a (4, 4)
 matrix

The assemblers index the local mass matrix with two indices, so a model
with spring elements could not be assembled.
---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 173ef58..ea1ec58 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -442,7 +442,7 @@ def spring(coord, stiff):
         [1, -1],
         [-1, 1]])
     stiff_mat = Q.T @ stiff_mat @ Q
-    return stiff_mat, np.zeros(4)
+    return stiff_mat, np.zeros((4, 4))
 
 
 def truss2D(coord, params):
-- 
2.43.0


From b47454b5d59aecb4ef24ef56fb8e83954ed4035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 08/28] fix: rotation to local axes of the beam elements

The axial/transverse directions are (nx, ny) and (-ny, nx). With the
previous matrices a rigid-body rotation of any beam not parallel to x
produced forces, and an inclined bar was stretched along its mirror image.
---
 solidspy/uelutil.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index ea1ec58..e503fbd 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -543,9 +543,9 @@ def beam2DU(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [ny, nx, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment = params[:2]
     bending_stiff = area_moment*young/L**3
@@ -601,11 +601,11 @@ def beam2D(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [nx, -ny, 0, 0, 0, 0],
-        [ny, nx, 0, 0, 0, 0],
+        [nx, ny, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, nx, -ny, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, nx, ny, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment, area = params[:3]
     bending_stiff = area_moment * young
-- 
2.43.0


From b955fb94d52ebf171bc6635ade7c18895a4a8924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 09/28] fix: reassign_dof_bloch gave images another number than
 their reference

The reference number was not corrected for the image dofs that precede
it; the 2x2 mesh of the bloch_transform_mat example got 3 instead of 2.
---
 solidspy/blochutil.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/solidspy/blochutil.py b/solidspy/blochutil.py
index a05f591..427617d 100644
--- a/solidspy/blochutil.py
+++ b/solidspy/blochutil.py
@@ -50,13 +50,9 @@ def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
     for cont_dof in range(ndofs):
         if cont_dof in dofs_ima:
             cont += 1
-            ref_dof = dofs_ref[dofs_ima.index(cont_dof)]
-            if ref_dof < cont_dof:
-                new_num.append(ref_dof)
-            else:
-                new_num.append(ref_dof - cont)
-        else:
-            new_num.append(cont_dof - cont)
+        new_num.append(cont_dof - cont)
+    for dof_ima, dof_ref in zip(dofs_ima, dofs_ref):
+        new_num[dof_ima] = new_num[dof_ref]
     return new_num
 
 
-- 
2.43.0


From 7bb6ce0b3b09094fa9cb491b3cc133721126f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 10/28] fix: well-shaped small elements were rejected as
 degenerate

The determinant was compared with an absolute tolerance of 1e-8, so that
a mesh with elements of 0.1 mm given in meters could not be analyzed.
---
 solidspy/femutil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 5400dbe..2a0d692 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -526,7 +526,9 @@ def jacoper(dNdr, coord):
     """
     jaco = dNdr @ coord
     det = np.linalg.det(jaco)
-    if np.isclose(np.abs(det), 0.0):
+    # The tolerance is relative to the size of the element
+    size = np.prod(np.linalg.norm(jaco, axis=1))
+    if np.abs(det) <= 1e-8*size:
         msg = "Jacobian close to zero. Check the shape of your elements!"
         raise ValueError(msg)
     jaco_inv = np.linalg.inv(jaco)
-- 
2.43.0


From f81add73dde1d7e9fabbd007b64fa34aba993624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 11/28] fix: ele_writer failed for quad9 and line elements

The docstring gives quad9 as an example and it is element type 4.
---
 solidspy/preprocesor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index dd26468..8b1a972 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -95,10 +95,7 @@ def ele_writer(cells, cell_data, ele_tag, phy_sur,  ele_type, mat_tag, nini):
 
     """
     eles = cells[ele_tag]
-    dict_nnode = {'triangle': 3,
-                  'triangle6': 6,
-                  'quad': 4}
-    nnode = dict_nnode[ele_tag]
+    nnode = eles.shape[1]
     phy_surface = cell_data[ele_tag]['gmsh:physical']
     ele_id = [cont for cont, _ in enumerate(phy_surface[:])
               if phy_surface[cont] == phy_sur]
-- 
2.43.0


From 38c4c15bb3cbffd560004a54d76188689d409bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 12/28] fix: input folders without a trailing slash were not
 found

---
 solidspy/preprocesor.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index 8b1a972..dcb39ab 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -7,26 +7,27 @@ This module contains functions to preprocess the input files to compute
 a Finite Element Analysis.
 
 """
+import os
 import sys
 import numpy as np
 
 
 def readin(folder=""):
     """Read the input files"""
-    nodes = np.loadtxt(folder + 'nodes.txt', ndmin=2)
-    mats = np.loadtxt(folder + 'mater.txt', ndmin=2)
-    elements = np.loadtxt(folder + 'eles.txt', ndmin=2, dtype=int)
-    loads = np.loadtxt(folder + 'loads.txt', ndmin=2)
+    nodes = np.loadtxt(os.path.join(folder, 'nodes.txt'), ndmin=2)
+    mats = np.loadtxt(os.path.join(folder, 'mater.txt'), ndmin=2)
+    elements = np.loadtxt(os.path.join(folder, 'eles.txt'), ndmin=2, dtype=int)
+    loads = np.loadtxt(os.path.join(folder, 'loads.txt'), ndmin=2)
 
     return nodes, mats, elements, loads
 
 
 def echomod(nodes, mats, elements, loads, folder=""):
     """Create echoes of the model input files"""
-    np.savetxt(folder + "KNODES.txt", nodes, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KMATES.txt", mats, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KELEMS.txt", elements, fmt='%d', delimiter=' ')
-    np.savetxt(folder + "KLOADS.txt", loads, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KNODES.txt"), nodes, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KMATES.txt"), mats, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KELEMS.txt"), elements, fmt='%d', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KLOADS.txt"), loads, fmt='%5.2f', delimiter=' ')
 
 
 def initial_params():
-- 
2.43.0


From b5bfcce627b2383c15d80b5cfad4ec2166549c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 13/28] fix: contour plots failed with current Matplotlib

tricontourf does not take shading and tripcolor does not take levels;
both raise, so solids_GUI failed with its default options.
---
 solidspy/postprocesor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 289fac2..7141744 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -101,10 +101,9 @@ def tri_plot(tri, field, title="", levels=12, savefigs=False,
         Filename to save the figures.
     """
     if plt_type == "pcolor":
-        disp_plot = plt.tripcolor
+        plt.tripcolor(tri, field, shading="gouraud")
     elif plt_type == "contourf":
-        disp_plot = plt.tricontourf
-    disp_plot(tri, field, levels, shading="gouraud")
+        plt.tricontourf(tri, field, levels)
     plt.title(title)
     plt.colorbar(orientation='vertical')
     plt.axis("image")
-- 
2.43.0


From 2d4d18cec96f55f219e2b7f04b0bb802b1605886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 14/28] fix: fields_plot tried to draw contours for beams with
 axial force

---
 solidspy/postprocesor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 7141744..d971427 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -49,7 +49,8 @@ def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
     # Check for structural elements in the mesh
     struct_pos = 5 in elements[:, 1] or \
              6 in elements[:, 1] or \
-             7 in elements[:, 1]
+             7 in elements[:, 1] or \
+             8 in elements[:, 1]
     if struct_pos:
         # Still not implemented visualization for structural elements
         print(disp)
-- 
2.43.0


From 7b0bd26b7e861f9dd7f3621ae8b9384ffebcbedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 15/28] fix: out-of-plane coupling of the 4x4 constitutive
 matrices

The normal out-of-plane (hoop) component is coupled to the in-plane normal
components by Lame's first parameter, as in the 3D matrix.
---
 solidspy/femutil.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 2a0d692..d67dbb4 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -610,10 +610,10 @@ def elast_mat_2d(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-    [2*mu + lamda, lamda, 0, 0],
-    [lamda, 2*mu + lamda, 0, 0],
+    [2*mu + lamda, lamda, 0, lamda],
+    [lamda, 2*mu + lamda, 0, lamda],
     [0, 0, mu, 0],
-    [0, 0, 0, 2*mu + lamda]])
+    [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
@@ -640,10 +640,10 @@ def elast_mat_axi(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-        [2*mu + lamda, lamda, 0, 0],
-        [lamda, 2*mu + lamda, 0, 0],
+        [2*mu + lamda, lamda, 0, lamda],
+        [lamda, 2*mu + lamda, 0, lamda],
         [0, 0, mu, 0],
-        [0, 0, 0, 2*mu + lamda]])
+        [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
-- 
2.43.0


From 7d788842b0de07fbffdcebdb5de05901b79236bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 16/28] fix: axisymmetric element integrated over the section,
 not the volume

The stiffness and mass of a ring need the volume element 2*pi*r dr dz.
---
 solidspy/uelutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index e503fbd..413c113 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -322,7 +322,8 @@ def elast_axi_quad9(coord, params):
         r = gpts[cont, 0]
         s = gpts[cont, 1]
         H, B, det = fem.elast_diff_axi(r, s, coord, fem.shape_quad9)
-        factor = det * gwts[cont]
+        radius = H[0, 0::2] @ coord[:, 0]
+        factor = 2 * np.pi * radius * det * gwts[cont]
         stiff_mat += factor * (B.T @ C @ B)
         mass_mat += rho*factor * (H.T @ H)
     return stiff_mat, mass_mat
-- 
2.43.0


From 5953b009936001b657d3ed26ae4129b87f7e1461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 17/28] fix: strain_nodes crashed for meshes of 9-noded quads

solids_auto and solids_GUI accept element type 4, but asking for strains
ended in an UnboundLocalError since no recovery routine was called.
---
 solidspy/femutil.py      | 34 ++++++++++++++++++++++++++++++++++
 solidspy/postprocesor.py |  2 ++
 2 files changed, 36 insertions(+)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index d67dbb4..dee4c4e 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -779,6 +779,40 @@ def str_el4(coord, ul):
     return epsG.T, xl
 
 
+def str_el9(coord, ul):
+    """Compute the strains at each element integration point
+
+    This one is used for 9-noded quadrilateral elements.
+
+    Parameters
+    ----------
+    coord : ndarray
+      Coordinates of the nodes of the element (9, 2).
+    ul : ndarray
+      Array with displacements for the element.
+
+    Returns
+    -------
+    epsGT : ndarray
+      Strain components for the Gauss points.
+    xl : ndarray
+      Configuration of the Gauss points after deformation.
+
+    """
+    epsG = np.zeros([3, 9])
+    xl = np.zeros([9, 2])
+    gpts, _ = gau.gauss_nd(3)
+    # Same order as the nodes of the element
+    gpts = gpts[[0, 6, 8, 2, 3, 7, 5, 1, 4]]
+    for i in range(gpts.shape[0]):
+        ri, si = gpts[i, :]
+        H, B, _ = elast_diff_2d(ri, si, coord, shape_quad9)
+        epsG[:, i] = B @ ul
+        xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
+    return epsG.T, xl
+
+
 if __name__ == "__main__":
     import doctest
     doctest.testmod()
diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index d971427..2fedfc1 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -383,6 +383,8 @@ def strain_nodes(nodes, elements, mats, sol_complete):
             epsG, _ = fe.str_el6(elcoor, ul)
         elif iet == 3:
             epsG, _ = fe.str_el3(elcoor, ul)
+        elif iet == 4:
+            epsG, _ = fe.str_el9(elcoor, ul)
         for cont, node in enumerate(IELCON[el, :]):
             E_nodes[node, 0] += epsG[cont, 0]
             E_nodes[node, 1] += epsG[cont, 1]
-- 
2.43.0


From 6f96360a120fe7fc7e3449903adc92935204f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:05 +0000
Subject: [PATCH 18/28] fix: stress_truss example handed the constraint flags
 to the assembler

The assembler takes the nodal numbers and coordinates; with the flags as
extra coordinates the lengths, and the stresses shown, were wrong.
---
 solidspy/postprocesor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 2fedfc1..cd3a16c 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -435,7 +435,8 @@ def stress_truss(nodes, elements, mats, disp):
 
     >>> def fem_sol(nodes, elements, mats, loads):
     ...     assem_op, bc_array , neq = ass.DME(nodes[:, 3:], elements)
-    ...     stiff, _ = ass.assembler(elements, mats, nodes, neq, assem_op)
+    ...     stiff, _ = ass.assembler(elements, mats, nodes[:, :3],
+    ...                              neq, assem_op)
     ...     rhs = ass.loadasem(loads, bc_array, neq)
     ...     disp = sol.static_sol(stiff, rhs)
     ...     disp_complete = complete_disp(bc_array, nodes, disp)
-- 
2.43.0


From ae4e9e5406a60b55a045c0540373be6a4487f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:09 +0000
Subject: [PATCH 19/28] fix: spring scaled its columns when the profiles have
 several columns

The assembler hands over the whole material profile. In a mesh that mixes
springs and bars the stiffness matrix of the spring was not symmetric.
---
 solidspy/uelutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 413c113..2c956f4 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -439,7 +439,8 @@ def spring(coord, stiff):
     Q = np.array([
         [nx, ny, 0, 0],
         [0, 0, nx, ny]])
-    stiff_mat = stiff * np.array([
+    # A material profile might have more columns than the stiffness
+    stiff_mat = np.ravel(stiff)[0] * np.array([
         [1, -1],
         [-1, 1]])
     stiff_mat = Q.T @ stiff_mat @ Q
-- 
2.43.0


From 9e2454633fc42ecb9a08740871051d965a0d77a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 20/28] fix: beam2D failed for a tuple of parameters with
 density

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 2c956f4..f1d85bb 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -623,7 +623,7 @@ def beam2D(coord, params):
     if len(params) == 3:
         dens = 1.0
     else:
-        dens = params[3:]
+        dens = params[3]
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [140, 0, 0, 70, 0, 0],
-- 
2.43.0


From be842e1971d94b36bec7763c60ab3498ccd1ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:48 +0000
Subject: [PATCH 21/28] fix: collapsed elements away from the origin passed the
 Jacobian check

---
 solidspy/femutil.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index dee4c4e..ef31826 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -526,9 +526,11 @@ def jacoper(dNdr, coord):
     """
     jaco = dNdr @ coord
     det = np.linalg.det(jaco)
-    # The tolerance is relative to the size of the element
-    size = np.prod(np.linalg.norm(jaco, axis=1))
-    if np.abs(det) <= 1e-8*size:
+    # The tolerance is relative to the size of the element, that should be
+    # larger than the round-off of its coordinates
+    size = np.linalg.norm(jaco, axis=1)
+    round_off = 1e-13*np.abs(coord).max()
+    if np.abs(det) <= 1e-8*np.prod(size) or np.min(size) <= round_off:
         msg = "Jacobian close to zero. Check the shape of your elements!"
         raise ValueError(msg)
     jaco_inv = np.linalg.inv(jaco)
-- 
2.43.0


From d144c5eeb5690384a03caf376feb3e603f117a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 22/28] fix: plot_node_field failed for fields given as one
 column

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index cd3a16c..882e72b 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -160,7 +160,7 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
     for cont in range(nfields):
-        if nfields == 1:
+        if len(field.shape) == 1:
             current_field = field
         else:
             current_field = field[:, cont]
-- 
2.43.0


From 6c4634d0b1d72719d87315bc61c37fab3fbe13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 23/28] fix: plot_node_field drew over open figures after
 another one was closed

---
 solidspy/postprocesor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 882e72b..8b3833d 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -154,8 +154,7 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
     if title is None:
         title = ["" for cont in range(nfields)]
     if figtitle is None:
-        figs = plt.get_fignums()
-        nfigs = len(figs)
+        nfigs = max(plt.get_fignums(), default=0)
         figtitle = [cont + 1 for cont in range(nfigs, nfigs + nfields)]
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
-- 
2.43.0


From 13f97b38d1e8401e3d0844b1ecf5abf72593690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 24/28] fix: plot_truss drew the members of a truss without
 stresses invisible

---
 solidspy/postprocesor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 8b3833d..351c1f7 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -214,7 +214,10 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
         scaled_stress = np.ones_like(elements[:, 0])
     else:
         max_stress = max(-stresses.min(), stresses.max())
-        scaled_stress = 0.5*(stresses + max_stress)/max_stress
+        if max_stress > 0:
+            scaled_stress = 0.5*(stresses + max_stress)/max_stress
+        else:
+            scaled_stress = 0.5*np.ones_like(stresses)
     if max_area - min_area > 1e-6:
         widths = (max_val - min_val)*(areas - min_area)/(max_area - min_area)\
             + min_val
-- 
2.43.0


From f85d34d8a9fa4e0a13df58a3f560778d91568858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:23 +0000
Subject: [PATCH 25/28] fix: mesh2tri failed for 3-noded triangles in tables of
 several types

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 351c1f7..ec5f848 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -276,7 +276,7 @@ def mesh2tri(nodes, elements):
             triangs.append(elem[[6, 4, 7]])
             triangs.append(elem[[7, 5, 8]])
         if elem[1] == 3:
-            triangs.append(elem[3:])
+            triangs.append(elem[[3, 4, 5]])
         if elem[1] == 4:
             triangs.append(elem[[3, 7, 11]])
             triangs.append(elem[[7, 4, 8]])
-- 
2.43.0


From 13a73cbb3852e656e73128aa5225120eec364072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:33 +0000
Subject: [PATCH 26/28] fix: plot_truss took the colours of the members from
 their identifiers

The stresses are given by row of the table of elements, as stress_truss returns
them; identifiers that are not the row numbers gave the colour of another
member, or an IndexError.
---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index ec5f848..eb8d5d7 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -224,9 +224,9 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
     else:
         widths = 3*np.ones_like(areas)
     plt.figure(figtitle)
-    for elem in elements:
+    for elem, elem_stress in zip(elements, scaled_stress):
         ini, end = elem[3:]
-        color = plt.cm.seismic(scaled_stress[elem[0]])
+        color = plt.cm.seismic(elem_stress)
         plt.plot([nodes[ini, 1], nodes[end, 1]],
                  [nodes[ini, 2], nodes[end, 2]],
                  color=color, lw=widths[elem[2]])
-- 
2.43.0


From 198495caf6c6f36ce383364b03d12612b7c640ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:51 +0000
Subject: [PATCH 27/28] fix: plot_truss drew members with small areas with
 equal widths

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index eb8d5d7..3cc577a 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -218,7 +218,7 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
             scaled_stress = 0.5*(stresses + max_stress)/max_stress
         else:
             scaled_stress = 0.5*np.ones_like(stresses)
-    if max_area - min_area > 1e-6:
+    if max_area - min_area > 1e-6*max_area:
         widths = (max_val - min_val)*(areas - min_area)/(max_area - min_area)\
             + min_val
     else:
-- 
2.43.0


From 13f91edddd367f4d151e33f7b1f6a2cc2877094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:51 +0000
Subject: [PATCH 28/28] fix: principal values of small tensors were set to zero

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 3cc577a..c1336c6 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -598,7 +598,7 @@ def eigvals(mat, tol=1e-6):
     True
 
     """
-    if np.abs(mat).max() < tol:
+    if np.abs(mat).max() == 0:
         eig1 = 0.0
         eig2 = 0.0
         vec1 = np.array([np.nan, np.nan])
-- 
2.43.0

