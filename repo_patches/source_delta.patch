From 3fbea10ac2134855936a88de2b2cde704991b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:29 +0000
Subject: [PATCH 01/17] fix: r2d_rotate never updated the y coordinate

Both assignments went to pos.x, so every polygon was flattened onto a wrong
x coordinate and y kept its old value.
---
 src/r2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 63936f8..37e35e9 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -426,7 +426,7 @@ void r2d_rotate(r2d_poly* poly, r2d_real theta) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		poly->verts[v].pos.x = cosine*tmp.x - sine*tmp.y; 
-		poly->verts[v].pos.x = sine*tmp.x + cosine*tmp.y; 
+		poly->verts[v].pos.y = sine*tmp.x + cosine*tmp.y; 
 	}
 }
 
-- 
2.43.0


From 72b88a6a208bd59ccc108e1d18dc48c8d6558fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:29 +0000
Subject: [PATCH 02/17] fix: r2d_box_faces_from_verts misplaced the two lower
 lines

The line y = y0 with normal (0,1) has signed distance d = -y0 (and likewise
for x), as in r3d_box_faces_from_verts.
---
 src/r2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 37e35e9..02efe1a 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -517,8 +517,8 @@ void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 
 
 void r2d_box_faces_from_verts(r2d_plane* faces, r2d_rvec2* rbounds) {
-	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = rbounds[0].y; 
-	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = rbounds[0].x; 
+	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = -rbounds[0].y; 
+	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = -rbounds[0].x; 
 	faces[2].n.x = 0.0; faces[2].n.y = -1.0; faces[2].d = rbounds[1].y; 
 	faces[3].n.x = -1.0; faces[3].n.y = 0.0; faces[3].d = rbounds[1].x; 
 }
-- 
2.43.0


From 9641470d8383abf45e713f650b87cf1de2d47875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:29 +0000
Subject: [PATCH 03/17] fix: r2d_split returned the negative side in out_pos

out_pos is documented as the part on the positive side of the plane, as r3d_split does.
---
 src/r2d.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 02efe1a..55d6301 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -151,7 +151,6 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 		memset(&side, 0, sizeof(side));
 		for(v = 0; v < *nverts; ++v) {
 			sdists[v] = plane.d + dot(vertbuffer[v].pos, plane.n);
-			sdists[v] *= -1;
 			if(sdists[v] < 0.0) {
 				side[v] = 1;
 				nright++;
-- 
2.43.0


From 36ef9cf68951f1e58e43e79ddabaaa7c96d798c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:29 +0000
Subject: [PATCH 04/17] fix: rNd_affine ignored all but the last column and the
 w offset

The matrix product was assigned instead of accumulated, and the homogeneous
coordinate left out mat[RND_DIM][RND_DIM], so even the identity gave a
division by zero.
---
 src/rNd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index e16c071..b993a57 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -488,13 +488,13 @@ void rNd_affine(rNd_poly* poly, rNd_real mat[RND_DIM+1][RND_DIM+1]) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		// affine transformation
-		for(i = 0; i < RND_DIM; ++i)
-		for(j = 0; j < RND_DIM; ++j)
-			poly->verts[v].pos.xyz[i] = tmp.xyz[j]*mat[i][j];
-		for(i = 0; i < RND_DIM; ++i)
-			poly->verts[v].pos.xyz[i] += mat[i][RND_DIM];
+		for(i = 0; i < RND_DIM; ++i) {
+			poly->verts[v].pos.xyz[i] = mat[i][RND_DIM];
+			for(j = 0; j < RND_DIM; ++j)
+				poly->verts[v].pos.xyz[i] += tmp.xyz[j]*mat[i][j];
+		}
 		// homogeneous divide if w != 1, i.e. in a perspective projection
-		w = 0.0;
+		w = mat[RND_DIM][RND_DIM];
 		for(j = 0; j < RND_DIM; ++j)
 			w += tmp.xyz[j]*mat[RND_DIM][j];
 		for(i = 0; i < RND_DIM; ++i)
-- 
2.43.0


From 1e15e41865929a487db0b1db65d98f2c05609917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:29 +0000
Subject: [PATCH 05/17] fix: rNd_clamp_ibox overran its clip-plane buffer in
 four dimensions

Up to 2*RND_DIM planes are stored, but there was room for six.
---
 src/vNd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vNd.c b/src/vNd.c
index 1f8e572..39693f9 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -266,7 +266,7 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 
 void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
 	rNd_int i, nboxclip;
-	rNd_plane boxfaces[6];
+	rNd_plane boxfaces[2*RND_DIM];
 	nboxclip = 0;
 	memset(boxfaces, 0, sizeof(boxfaces));
 	for(i = 0; i < RND_DIM; ++i) {
-- 
2.43.0


From 5dccfffe404d52a18803ee3454fa81c961f616a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:13 +0000
Subject: [PATCH 06/17] fix: flood-fill stack overflow in r3d_is_good and
 rNd_is_good

Every visited vertex pushes all its neighbours, so the stack can hold more
entries than there are vertices; large valid polyhedra overran the array.
---
 src/r3d.c | 2 +-
 src/rNd.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index bb4abfd..8ddf768 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -479,7 +479,7 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 	r3d_int nvstack;
 	r3d_int va, vb, vc;
 	r3d_int vct[R3D_MAX_VERTS];
-	r3d_int stack[R3D_MAX_VERTS];
+	r3d_int stack[3 * R3D_MAX_VERTS];
 	r3d_int regions[R3D_MAX_VERTS];
 
 	// direct access to vertex buffer
diff --git a/src/rNd.c b/src/rNd.c
index b993a57..f2dc46d 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -321,7 +321,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 	rNd_int v, vc, np, npp, rcur, insubset;
 	rNd_int nvstack;
 	rNd_int vct[RND_MAX_VERTS];
-	rNd_int stack[RND_MAX_VERTS];
+	rNd_int stack[RND_DIM*RND_MAX_VERTS];
 	rNd_int regions[RND_MAX_VERTS];
 	rNd_int subset[RND_DIM-1];
 
-- 
2.43.0


From 5de29f71ea1c09d4cf12f38f42fcdb036b9aa1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:13 +0000
Subject: [PATCH 07/17] fix: validity checks missed negative and self-pointing
 neighbours

A negative neighbour index made r2d_is_good, r3d_is_good and rNd_is_good
write in front of their counters, and r2d/r3d accepted vertices that are
their own neighbours although they are meant to reject them.
---
 src/r2d.c | 5 +++--
 src/r3d.c | 6 +++++-
 src/rNd.c | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 55d6301..54a1515 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -403,8 +403,9 @@ r2d_int r2d_is_good(r2d_poly* poly) {
 		// return false if vertices share an edge with themselves 
 		// or if any edges are obviously invalid
 		if(vertbuffer[v].pnbrs[0] == vertbuffer[v].pnbrs[1]) return 0;
-		if(vertbuffer[v].pnbrs[0] >= *nverts) return 0;
-		if(vertbuffer[v].pnbrs[1] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[0] == v || vertbuffer[v].pnbrs[1] == v) return 0;
+		if(vertbuffer[v].pnbrs[0] < 0 || vertbuffer[v].pnbrs[0] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[1] < 0 || vertbuffer[v].pnbrs[1] >= *nverts) return 0;
 
 		vct[vertbuffer[v].pnbrs[0]]++;
 		vct[vertbuffer[v].pnbrs[1]]++;
diff --git a/src/r3d.c b/src/r3d.c
index 8ddf768..08fce1b 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -496,10 +496,14 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 				printf("Double edge.\n");
 				return 0;
 			}
-			if (vertbuffer[v].pnbrs[np] >= *nverts) {
+			if (vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
+			if (vertbuffer[v].pnbrs[np] == v) {
+				printf("Self-pointing vertex.\n");
+				return 0;
+			}
 		}
 
 		vct[vertbuffer[v].pnbrs[0]]++;
diff --git a/src/rNd.c b/src/rNd.c
index f2dc46d..1cb3a26 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -342,7 +342,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 				return 0;
 			}
 			// return if any edges are obviously invalid
-			if(vertbuffer[v].pnbrs[np] >= *nverts) {
+			if(vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
-- 
2.43.0


From 1a753b0df579608cf4e657c680388e5ba26b185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:13 +0000
Subject: [PATCH 08/17] fix: r3d_init_brep on an empty polyhedron

It walked stale vertices of the empty buffer. Return no components and a
null pointer, which r3d_print_brep and r3d_free_brep accept.
---
 src/r3d.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/r3d.c b/src/r3d.c
index 08fce1b..06327e1 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1070,6 +1070,11 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 	r3d_int nc = 0, ncmax = 0, i, np, nv, nf, vstart, vcur, vnext, pedge, nvkept,
             numvertsincomponent, j;
 
+	// an empty polyhedron has no components
+	*numcomponents = 0;
+	*brep = NULL;
+	if (nverts <= 0) return;
+
 	// make the mapping of equivalent vertex indices
 	r3d_int vertex_map[nverts];
 	vertex_map[0] = 0;
-- 
2.43.0


From d1256ce4e142af641b1e4ca460611b0c0f69520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:13 +0000
Subject: [PATCH 09/17] fix: r3d_init_brep read past its edge marks for a full
 vertex buffer

After the last face of a component nv equals nverts, which is one past the
array when the buffer is full.
---
 src/r3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3d.c b/src/r3d.c
index 06327e1..ce0e24f 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1210,7 +1210,7 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 			vstart = nv;
 
 			// find an unwalked edge starting at the this vertex
-			for (np = 0; np < 3; np++) {
+			for (np = 0; nv < nverts && np < 3; np++) {
 				if (edge_marked[nv][np] == 0) {
 					break;
 				}
-- 
2.43.0


From 969fc334467bb301881efc60dfc231f5e81436fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:13 +0000
Subject: [PATCH 10/17] fix: r3d_init_poly left a garbage polyhedron when the
 buffer is too small

On overflow it returned 0 with nverts already advanced over unset vertices
(or with the previous contents). Leave an empty polyhedron, as for other
refused descriptions.
---
 src/r3d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r3d.c b/src/r3d.c
index ce0e24f..82ca062 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -734,6 +734,7 @@ int r3d_init_poly(r3d_poly *poly, r3d_rvec3 *vertices, r3d_int numverts,
 	r3d_int v, vprev, vcur, vnext, f, np;
 
         if (numverts > R3D_MAX_VERTS) {
+          poly->nverts = 0;
 #if !defined(NDEBUG)
           fprintf(stderr, "r3d_init_poly: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
 #endif
@@ -814,6 +815,7 @@ int r3d_init_poly(r3d_poly *poly, r3d_rvec3 *vertices, r3d_int numverts,
 		*nverts = 0;
 		for (v = 0; v < numverts; ++v) {
                         if ((*nverts) + eperv[v] > R3D_MAX_VERTS) {
+                          *nverts = 0;
 #if !defined(NDEBUG)
                           fprintf(stderr, "r3d_init_poly: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
 #endif
-- 
2.43.0


From 9ebb142d62b81f1e9497e3fee7f5937f1a748abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:38 +0000
Subject: [PATCH 11/17] fix: r2d moments ignored SHIFT_POLY, losing accuracy
 away from the origin

The option is defined in the generated r3d-config.h, which r2d.c never included.
---
 src/r2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/r2d.c b/src/r2d.c
index 54a1515..04dbaa4 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -18,6 +18,7 @@
  */
 
 #include "r2d.h"
+#include "r3d-config.h" /* defines SHIFT_POLY */
 #include <string.h>
 #include <math.h>
 #include <stdio.h>
-- 
2.43.0


From d044c5764617e109a83409f20a5218bded3ab9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:59 +0000
Subject: [PATCH 12/17] fix: legacy r3d_voxelize_tet with USE_TREE mixed up the
 corners of a voxel

---
 deprecated/r3d.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 4ffd6a1..ca5db68 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -344,9 +344,11 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 			k = curnode.kmin;
 
 			// initialize the unit cube connectivity 
+			// the box vertices are in row-major order, the node corners are not
+			const static unsigned char corner[8] = {0, 4, 3, 7, 1, 5, 2, 6};
 			r3du_init_box(&voxel, rbounds);
 			for(v = 0; v < voxel.nverts; ++v)
-				voxel.verts[v].orient = curnode.orient[v];
+				voxel.verts[v].orient = curnode.orient[corner[v]];
 
 			// clip and reduce
 			r3d_clip_tet(&voxel, andcmp);
-- 
2.43.0


From c96ea9a4c2510e74444f1d0b16323e3befc62649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 13/17] fix: legacy r2d_clip_quad looped forever when nothing
 remained inside a face

---
 deprecated/r2d.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index 704c11e..f8ec517 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -499,6 +499,9 @@ void r2d_clip_quad(r2d_poly* poly, unsigned char andcmp) {
 			}
 			vertbuffer[vcur].orient.fflags |= CLIP_MASK;
 			vcur = vnext;
+
+			// all remaining vertices lie outside of the face
+			if(searching && vcur == vstart) return;
 		}
 
 		// traverse to the left
-- 
2.43.0


From 1cad0e8be3ae85ddca31e8284b9fac4ad7d19794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:39 +0000
Subject: [PATCH 14/17] fix: rNd_clip lost its way where rounding had joined
 two vertices by two edges

When a hyperplane passes several vertices to within rounding error, a clip can
leave two vertices that share two edges. The next clip found the edge back by
the neighbour index alone, could take the wrong one, failed to find the 2-face
on it and indexed past the neighbour table (crash). Select the edge that lies
in both 2-faces being walked.
---
 src/rNd.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index 1cb3a26..2cfb54a 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -127,15 +127,19 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 					vprev = vcur;
 					vcur = vertbuffer[vcur].pnbrs[0];
 				}
-				for(pprev = 0; pprev < RND_DIM; ++pprev) 
-					if(vertbuffer[vcur].pnbrs[pprev] == vprev) break;
-				for(pnext = 0; pnext < RND_DIM; ++pnext) {
-					if(pnext == pprev) continue;
-					if(vertbuffer[vcur].finds[pprev][pnext] == fcur) break;
-				}
-				for(np = 0; np < RND_DIM; ++np) {
-					if(np == pprev) continue;
-					if(vertbuffer[vcur].finds[np][pprev] == fadj) break;
+				// two vertices can share more than one edge, so the edge 
+				// back must also lie in both 2-faces
+				for(pprev = 0; pprev < RND_DIM; ++pprev) {
+					if(vertbuffer[vcur].pnbrs[pprev] != vprev) continue;
+					for(pnext = 0; pnext < RND_DIM; ++pnext) {
+						if(pnext == pprev) continue;
+						if(vertbuffer[vcur].finds[pprev][pnext] == fcur) break;
+					}
+					for(np = 0; np < RND_DIM; ++np) {
+						if(np == pprev) continue;
+						if(vertbuffer[vcur].finds[np][pprev] == fadj) break;
+					}
+					if(pnext < RND_DIM && np < RND_DIM) break;
 				}
 				fadj = vertbuffer[vcur].finds[np][pnext];
 				vprev = vcur;
-- 
2.43.0


From 4a652ad56aec2675df24f67603912e6b5a93b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:20 +0000
Subject: [PATCH 15/17] fix: voxel and pixel offsets overflowed 32 bits on
 large grids

r3d_voxelize and r2d_rasterize computed the flat index into dest_grid in
32-bit integers, so grids with more than 2^31 moments (1024^3 cells at first
order, 65536^2 pixels) were written at negative offsets.
---
 src/v2d.c | 2 +-
 src/v3d.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2d.c b/src/v2d.c
index 9d98ca5..40c8a1c 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -101,7 +101,7 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 		}
 
 		// if all three axes are only one raster long, reduce the single raster to the dest grid
-#define gind(ii, jj, mm) (nmom*((ii-ibox[0].i)*gridsz.j+(jj-ibox[0].j))+mm)
+#define gind(ii, jj, mm) (nmom*((r2d_long)(ii-ibox[0].i)*gridsz.j+(jj-ibox[0].j))+mm)
 		if(dmax == 1) {
 			r2d_reduce(&stack[nstack].poly, moments, polyorder);
 			// TODO: cell shifting for accuracy
diff --git a/src/v3d.c b/src/v3d.c
index 7e6bcb1..0c7363f 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -102,7 +102,7 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
 		}
 
 		// if all three axes are only one voxel long, reduce the single voxel to the dest grid
-#define gind(ii, jj, kk, mm) (nmom*((ii-ibox[0].i)*gridsz.j*gridsz.k+(jj-ibox[0].j)*gridsz.k+(kk-ibox[0].k))+mm)
+#define gind(ii, jj, kk, mm) (nmom*(((r3d_long)(ii-ibox[0].i)*gridsz.j+(jj-ibox[0].j))*gridsz.k+(kk-ibox[0].k))+mm)
 		if(dmax == 1) {
 			r3d_reduce(&stack[nstack].poly, moments, polyorder);
 			// TODO: cell shifting for accuracy
-- 
2.43.0


From 8839a40154115e0f08e3265364d4967baae2be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:20 +0000
Subject: [PATCH 16/17] fix: rNd_voxelize cell count and strides overflowed 32
 bits on large grids

With more than 2^31 cells the cell count wrapped around, which gave the
work stack a meaningless size, and the grid offsets were wrong.
---
 src/vNd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vNd.c b/src/vNd.c
index 39693f9..f9b3102 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -52,10 +52,10 @@ void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax
 
 void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
 
-	rNd_int i, j, m, ncell, spax, dmax, nstack, siz;
-	rNd_long gind;
+	rNd_int i, j, m, spax, dmax, nstack, siz;
+	rNd_long gind, ncell, stride[RND_DIM];
 	rNd_poly* children[2];
-	rNd_dvec gridsz, stride;
+	rNd_dvec gridsz;
 
 	// return if any parameters are bad 
 	// calculate grid size 
@@ -70,8 +70,8 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
 	ncell = 1; 
 	for(i = 0; i < RND_DIM; ++i) {
 		ncell *= gridsz.ijk[i]; 
-		stride.ijk[i] = 1;
-		for(j = i+1; j < RND_DIM; ++j) stride.ijk[i] *= gridsz.ijk[j]; 
+		stride[i] = 1;
+		for(j = i+1; j < RND_DIM; ++j) stride[i] *= gridsz.ijk[j]; 
 	}
 
 	// Only zeroth-order moments for now
@@ -118,7 +118,7 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
 			// TODO: give this its own macro?
 			gind = 0;
 			for(i = 0; i < RND_DIM; ++i) 
-				gind += (stack[nstack].ibox[0].ijk[i]-ibox[0].ijk[i])*stride.ijk[i];
+				gind += (stack[nstack].ibox[0].ijk[i]-ibox[0].ijk[i])*stride[i];
 
 			// TODO: cell shifting for accuracy
 			for(m = 0; m < nmom; ++m) dest_grid[nmom*gind+m] += moments[m];
-- 
2.43.0


From bc91251d9424b36e15cb4361b32e4a544b82f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:41 +0000
Subject: [PATCH 17/17] fix: legacy second moments of full cells overflowed 32
 bits on long grids

---
 deprecated/r2d.c |  8 ++++----
 deprecated/r3d.c | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index f8ec517..7d3529d 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -148,8 +148,8 @@ void r2d_rasterize_quad(r2d_plane* faces, r2d_dest_grid* grid) {
 				moments[2] = locvol*d.y*(j + 0.5); // y
 			}
 			if(polyorder >= 2) {
-				moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-				moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
+				moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+				moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
 				moments[5] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 			}
 
@@ -271,8 +271,8 @@ void r2d_rasterize_quad(r2d_plane* faces, r2d_dest_grid* grid) {
 					moments[2] = locvol*d.y*(j + 0.5); // y
 				}
 				if(polyorder >= 2) {
-					moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-					moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
+					moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+					moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
 					moments[5] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 				}
 
diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index ca5db68..20949cd 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -155,9 +155,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 				moments[3] = locvol*d.z*(k + 0.5); // z
 			}
 			if(polyorder >= 2) {
-				moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-				moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
-				moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3*k + 3*k*k); // z*z
+				moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+				moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
+				moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3.0*k + 3.0*k*k); // z*z
 				moments[7] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 				moments[8] = locvol*0.25*d.y*d.z*(1 + 2*j)*(1 + 2*k); // y*z
 				moments[9] = locvol*0.25*d.x*d.z*(1 + 2*i)*(1 + 2*k); // z*x
@@ -314,9 +314,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 					moments[3] = locvol*d.z*(k + 0.5); // z
 				}
 				if(polyorder >= 2) {
-					moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-					moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
-					moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3*k + 3*k*k); // z*z
+					moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+					moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
+					moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3.0*k + 3.0*k*k); // z*z
 					moments[7] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 					moments[8] = locvol*0.25*d.y*d.z*(1 + 2*j)*(1 + 2*k); // y*z
 					moments[9] = locvol*0.25*d.x*d.z*(1 + 2*i)*(1 + 2*k); // z*x
-- 
2.43.0

