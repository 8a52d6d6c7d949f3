From a07759354e3cfafaa8db6c2fa1636b5fa03b8ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:43 +0000
Subject: [PATCH 01/71] fix: pd_comps_ok reads past the edge table and accepts
 a tag below 'A'

An out-of-range edge number in a component record was dereferenced before
being checked, and the lowest tag was never compared against 'A'.
---
 src/pdcode.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 354efaf..ce5e7a2 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2384,6 +2384,13 @@ bool pd_comps_ok(pd_code_t *pd)
       e_idx = pd->comp[comp].edge[edge];
       n_idx = pd->comp[comp].edge[next_edge];
 
+      if (e_idx >= pd->nedges || n_idx >= pd->nedges) {
+
+	return pd_error(SRCLOC,"%COMP contains illegal edge number (%d or %d) in pd %PD",
+			pd,comp,e_idx,n_idx);
+
+      }
+
       if (pd->edge[e_idx].head != pd->edge[n_idx].tail ||
 	  (4 + pd->edge[e_idx].headpos - pd->edge[n_idx].tailpos) % 4 != 2) {
 
@@ -2449,6 +2456,10 @@ bool pd_comps_ok(pd_code_t *pd)
 
     }
 
+  }
+
+  for(i=0;i<pd->ncomps;i++) {
+
     if (tagset[i] < 'A') {
 
       pd_idx_t compA;
-- 
2.43.0


From 495f1902131c9a96befa250b09e96986f4a6b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:49 +0000
Subject: [PATCH 02/71] fix: pd_faces_ok accepts a face list in which one face
 is repeated

Each edge may occur at most once with each orientation on the faces.
---
 src/pdcode.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index ce5e7a2..92bc8b1 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2586,6 +2586,32 @@ bool pd_faces_ok(pd_code_t *pd)
 
   }
 
+  /* Check that no edge occurs twice with the same orientation */
+
+  pd_idx_t *seen = calloc(2*pd->nedges,sizeof(pd_idx_t));
+  assert(seen != NULL);
+
+  for(face=0;face<pd->nfaces;face++) {
+
+    for(edge=0;edge<pd->face[face].nedges;edge++) {
+
+      pd_idx_t *count = &(seen[2*pd->face[face].edge[edge] +
+			       (pd->face[face].orient[edge] == PD_POS_ORIENTATION ? 1 : 0)]);
+
+      if (++(*count) > 1) {
+
+	free(seen);
+	return pd_error(SRCLOC,"%FEDGE occurs on more than one face with the same orientation in pd %PD",
+			pd,face,edge);
+
+      }
+
+    }
+
+  }
+
+  free(seen);
+
   /* Check that each face is rotated into canonical order */
 
   for(face=0;face<pd->nfaces;face++) {
-- 
2.43.0


From 0cffca6ff6fad61b556c992dc71d2543e8dd4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:38 +0000
Subject: [PATCH 03/71] fix: the diagram checker accepts empty faces and
 components (and divides by zero on them)

---
 src/pdcode.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 92bc8b1..0792dd5 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2368,6 +2368,12 @@ bool pd_comps_ok(pd_code_t *pd)
 
   for(correct_edgenum=0,comp=0;comp < pd->ncomps;comp++) {
 
+    if (pd->comp[comp].nedges == 0) {
+
+      return pd_error(SRCLOC,"Component %d has no edges in pd %PD",pd,comp);
+
+    }
+
     for(edge=0;edge < pd->comp[comp].nedges;edge++,correct_edgenum++) {
 
       if (correct_edgenum != pd->comp[comp].edge[edge]) {
@@ -2544,6 +2550,12 @@ bool pd_faces_ok(pd_code_t *pd)
 
     pd_face_t *f = &(pd->face[face]);
 
+    if (f->nedges == 0) {
+
+      return pd_error(SRCLOC,"Face %d has no edges in pd %PD",pd,face);
+
+    }
+
     for(edge=0,nxt_edge= 1 % f->nedges;
 	edge<f->nedges;
 	edge++,nxt_edge = (edge+1) % f->nedges) {
-- 
2.43.0


From fd5c9db261d4a9a2d0a07fb540820ab776a762f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:38 +0000
Subject: [PATCH 04/71] fix: pd_read_err overflows its hash buffer on a
 32-character hash

---
 src/pdcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 0792dd5..0761dff 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3198,7 +3198,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
      want the sscanf pattern to reflect PD_HASHSIZE (which might change) */
 
   char hash_template[1024];
-  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE);
+  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE-1);
 
   int sscanf_result = sscanf(pd_line,hash_template,hash,&input_temp);
 
-- 
2.43.0


From c66aab7bc6c0d2984567e0c66868237c340974ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:38 +0000
Subject: [PATCH 05/71] fix: pd_read_err exits on a truncated 0-crossing
 diagram and loses the error on a missing nc line

---
 src/pdcode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 0761dff..6af457b 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3332,7 +3332,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	pd_error(SRCLOC,
 		 "Reading 0 crossing pd code, we found eof before a component tag. ",NULL);
 	pd_err_set(err, PD_BAD_FORMAT);
-	exit(1);
+	return NULL;
 
       }
     }
@@ -3472,6 +3472,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	     "nc <ncomps>\n"
 	     "where <ncomps> is a positive integer\n"
 	     "but this one doesn't",pd);
+    pd_err_set(err, PD_BAD_FORMAT);
     pd_code_free(&pd); return NULL;
 
   }
-- 
2.43.0


From 04dd220ce38f61e12454e7be116388f27d5b4cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:38 +0000
Subject: [PATCH 06/71] fix: pd_read_err indexes crossings with unchecked edge
 records

---
 src/pdcode.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 6af457b..6b6a277 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3455,6 +3455,17 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
+    if (input_temp >= pd->ncross || input_temp2 > 3 ||
+	input_temp3 >= pd->ncross || input_temp4 > 3) {
+
+      pd_error(SRCLOC,
+	       "edge %d refers to a crossing or position which doesn't exist\n",pd,edge);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
+
     pd->edge[edge].tail = (pd_idx_t)(input_temp);
     pd->edge[edge].tailpos = (pd_pos_t)(input_temp2);
 
-- 
2.43.0


From a9ad12d76ab01de54dd57060e910d865d0eb5712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:38 +0000
Subject: [PATCH 07/71] fix: pd_read_err uses unchecked component sizes and an
 unread character at end of file

---
 src/pdcode.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 6b6a277..c79109d 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3522,12 +3522,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     pd->comp[comp].nedges = (pd_idx_t)(input_temp);
 
-    /* We haven't allocated space in the component. */
-
-    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
-    assert(pd->comp[comp].edge != NULL);
-
-    if (pd->comp[comp].nedges > pd->MAXEDGES) {
+    if (pd->comp[comp].nedges == 0 || pd->comp[comp].nedges > pd->MAXEDGES) {
 
       pd_error(SRCLOC,
                "Reading component which appears to be valid but has %d edges. "
@@ -3539,6 +3534,11 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
+    /* We haven't allocated space in the component. */
+
+    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
+    assert(pd->comp[comp].edge != NULL);
+
     for(edge=0;edge<pd->comp[comp].nedges;edge++) {
 
       if(fscanf(infile," %lu ",&input_temp) != 1) {
@@ -3560,7 +3560,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     /* Skip whitespace until we find a character... */
 
     char testchar;
-    fscanf(infile," %c",&testchar);
+    if (fscanf(infile," %c",&testchar) != 1) {
+
+      pd_error(SRCLOC,"file ends after component %d of pd_code\n",pd,comp);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
 
     if (testchar == 't') { /* for tag */
 
-- 
2.43.0


From 3e6226917bc9d2b1ebe93c90ae54cfc3ad860219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:38 +0000
Subject: [PATCH 08/71] fix: pd_read aborts on an inconsistent diagram instead
 of returning NULL

---
 src/pdcode.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index c79109d..f10f917 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3695,7 +3695,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   pd_regenerate_crossings(pd); /* If the crossings were not in canonical order, fix it. */
 
-  pd_err_check(pd_ok(pd), err, PD_NOT_OK, pd);
+  if (!pd_ok(pd)) {
+
+    if (err != NULL) { *err = PD_NOT_OK; return pd; }
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   if (strstr(pd->hash,"unset") != NULL) { pd_regenerate_hash(pd); }
 
   return pd;
-- 
2.43.0


From 361dc042e2bbfc3009946873a96233c9f50f30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:18 +0000
Subject: [PATCH 09/71] fix: pd_read_KnotTheory writes out of bounds on
 unexpected edge numbers

---
 src/pdcode.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index f10f917..b575770 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3785,6 +3785,35 @@ ones we don't need.
 
   }
 
+  /* Every edge number in 1..2*(number of crossings) should appear exactly twice. */
+
+  int cr_idx,pos_idx;
+  char *edge_uses = calloc(2*crbuf_used,sizeof(char));
+  assert(edge_uses != NULL);
+
+  for(cr_idx=0;cr_idx<crbuf_used;cr_idx++) {
+
+    for(pos_idx=0;pos_idx<4;pos_idx++) {
+
+      pd_idx_t e = crbuf[cr_idx].edge[pos_idx];
+
+      if (e < 1 || e > 2*crbuf_used || edge_uses[e-1] == 2) {
+
+	printf("pd_read_KnotTheory: Unexpected edge number %d in crossing %d\n",(int)(e),cr_idx);
+	free(edge_uses);
+	free(crbuf);
+	return NULL;
+
+      }
+
+      edge_uses[e-1]++;
+
+    }
+
+  }
+
+  free(edge_uses);
+
   /* We have now read all the crossings and won't bother with the file anymore. Our job is
      to extract the information needed to allocate and fill a pd_code_t from this buffer,
      then free it. The first task is to allocate space for the code. */
-- 
2.43.0


From 3e11867e5591cda5faf58ce1354ce4ae7607fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:38 +0000
Subject: [PATCH 10/71] fix: pd_unpack turns unset crossing signs into negative
 ones

---
 src/pd_pack.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index d1236c0..1369b10 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -423,6 +423,16 @@ pd_code_t *pd_unpack(unsigned int *bitform)
      and it should be ok to call pd_regenerate. */
 
   pd_regenerate(pd);
+
+  /* Unsigned codes carry no sign information. (We do this after
+     regenerating, so that the packed orientations are kept.) */
+
+  if (crtype == UNSIGNED_CROSSINGS) {
+
+    for(k=0;k<pd->ncross;k++) { pd->cross[k].sign = PD_UNSET_ORIENTATION; }
+
+  }
+
   assert(pd_ok(pd));
   
   return pd;
-- 
2.43.0


From 7ffe35fcfb1482ce00745ddaa952a7678c61b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:38 +0000
Subject: [PATCH 11/71] fix: copying a 0-crossing diagram loses its tag, uid
 and hash

---
 src/pdcode.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index b575770..3aa1e28 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2772,7 +2772,13 @@ pd_code_t *pd_copy_newsize(pd_code_t *pd, pd_idx_t MAXVERTS)
 {
   if (pd->ncross == 0) {
 
-    return pd_build_unknot(0);
+    pd_code_t *unknot = pd_build_unknot(0);
+
+    unknot->uid = pd->uid;
+    memcpy(unknot->hash,pd->hash,PD_HASHSIZE);
+    if (pd->ncomps == 1) { unknot->comp[0].tag = pd->comp[0].tag; }
+
+    return unknot;
 
   }
 
-- 
2.43.0


From 1a09432b6e9d0f9ad5d92c191f311c7e6c866b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:38 +0000
Subject: [PATCH 12/71] fix: pd_renumber_component subtracts the offset it is
 documented to add

---
 src/pd_operations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pd_operations.c b/src/pd_operations.c
index 4f2d270..22e241f 100644
--- a/src/pd_operations.c
+++ b/src/pd_operations.c
@@ -191,7 +191,7 @@ void pd_renumber_component(pd_code_t *pd, pd_idx_t cmp,pd_idx_t ofs)
 
     for(e=0;e<cmp_edges;e++) { 
 
-      new_e = (e + ofs) % cmp_edges;
+      new_e = (e + cmp_edges - ofs % cmp_edges) % cmp_edges; /* the edge which BECOMES e */
       emap->orient[pd->comp[cmp].edge[e]] = PD_POS_ORIENTATION;
       emap->perm->map[pd->comp[cmp].edge[e]] = pd->comp[cmp].edge[new_e];
 
-- 
2.43.0


From d0334fe20eefba6568a4cf8e7b9eed411db941af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:33 +0000
Subject: [PATCH 13/71] fix: pd_diagram_isotopic ends the process when the tags
 of the diagrams differ or come in another order

---
 src/pd_isomorphisms.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 510598a..d63bf9c 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2562,17 +2562,20 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     }
 
-    if (!tag_found) { /* Something weird has happened. */
+    if (!tag_found) { /* The sets of tags differ, so these aren't diagram isotopic. */
 
-      pd_error(SRCLOC,"couldn't find tag from %COMP of pdA = %PD in",pdA,i);
-      pd_error(SRCLOC,"pdB = %PD\n",pdB);
-      exit(1);
+      pd_free_perm((void **)(&comp_perm));
+      pd_free_container(&isos,pd_free_fake);
+      return NULL;
 
     }
 
   }
 
-  /* We SHOULD have assembled a permutation of components. */
+  /* We SHOULD have assembled a permutation of components. Since we
+     didn't build it by iteration, the pc_idx has to be recomputed. */
+
+  pd_regenerate_pcidx(comp_perm);
 
   if (!pd_perm_ok(comp_perm)) {
 
@@ -2592,6 +2595,7 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
     if (pdA->comp[i].nedges != pdB->comp[comp_perm->map[i]].nedges) {
 
       pd_free_perm((void **)(&comp_perm));
+      pd_free_container(&isos,pd_free_fake);
       *nisos = 0;
       return NULL;
 
-- 
2.43.0


From fd31b9919ef9cb6224dae15373e64b855d6405a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:09 +0000
Subject: [PATCH 14/71] fix: pd_diagram_isotopic ignores the orientation of
 components with two edges

---
 src/pd_isomorphisms.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index d63bf9c..d76ad89 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -1083,6 +1083,27 @@ pd_crossmap_t *pdint_build_oriented_signed_crossmap(pd_code_t *pdA,pd_code_t *pd
 
   }
 
+  /* The edge #s alone don't see the orientation of a component with two edges:
+     make sure that the crossing map takes heads to heads and tails to tails
+     (or the reverse, on reversed edges). */
+
+  pd_idx_t edge;
+
+  for(edge=0;edge<pdA->nedges;edge++) {
+
+    pd_edge_t imgedge = pd_oriented_edge(pdB->edge[edgemap->perm->map[edge]],
+					 edgemap->orient[edge]);
+
+    if (crossmap->perm->map[pdA->edge[edge].head] != imgedge.head ||
+	crossmap->perm->map[pdA->edge[edge].tail] != imgedge.tail) {
+
+      pd_free_crossmap(&crossmap);
+      return NULL;
+
+    }
+
+  }
+
   /* We have now generated the map for the permutation, but not
      identified it with a precomputed perm. We try: */
 
-- 
2.43.0


From 8ceeab08da5b6db364a99fd572be664356f8b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:35 +0000
Subject: [PATCH 15/71] fix: pd_read_pdstor accepts a contradictory header
 unless PD_VERBOSE is set

---
 src/pd_storage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index c2852af..78b027b 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -742,10 +742,11 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
       if (PD_VERBOSE) {
 
 	printf("pd_read_pdstor: Header of pdstor file appears corrupt.\n");
-	return NULL;
 
       }
 
+      return NULL;
+
     }
 
     nelts = nelts_claimed;
-- 
2.43.0


From d535e6798ffe81a07b3e0d3bb399196b37849271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:40 +0000
Subject: [PATCH 16/71] fix: pd_read_pdstor never returns a store whose size is
 not announced in the header

---
 src/pd_storage.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 78b027b..86818c3 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -17,6 +17,7 @@
 #include<stdio.h>
 #include<string.h>
 #include<stdlib.h>
+#include<ctype.h>
 
 #ifdef HAVE_STDBOOL_H
   #include<stdbool.h>
@@ -767,6 +768,15 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
     }
 
+    if (nelts == UINT_MAX) { /* We don't know how many to expect: stop at the end of the file. */
+
+      int c;
+      while ((c = fgetc(stream)) != EOF && isspace(c));
+      if (c == EOF) { break; }
+      ungetc(c,stream);
+
+    }
+
     pd_code_t *pd = pd_read(stream);
 
     if (pd == NULL) { 
@@ -785,7 +795,7 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
   }
 
-  if (elt != nelts) { 
+  if (elt != nelts && nelts != UINT_MAX) { 
 
     if (PD_VERBOSE) { printf("pd_read_pdstor: Only read %u of %u elements from file.\n",elt,nelts); }
     pd_free_pdstor(&pdstor);
@@ -795,7 +805,7 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
   if (PD_VERBOSE) { 
 
-    printf("pd_read_pdstor: Read %u elements from stream.\n",nelts);
+    printf("pd_read_pdstor: Read %u elements from stream.\n",elt);
     
   }
 
-- 
2.43.0


From 0466382600ac3074bfaf217f0bf91f24866b7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:19 +0000
Subject: [PATCH 17/71] fix: packing (and so storing) a 0-crossing diagram
 aborts

---
 src/pd_pack.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index 1369b10..db7907d 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -299,6 +299,15 @@ unsigned int *pd_pack(pd_code_t *pd,unsigned int *packedlength)
      signed or all are unset (we don't have a way to bitpack partially 
      set crossings) */
 
+  if (pd->ncross == 0) { /* There are no crossings to encode: store only the count. */
+
+    *packedlength = 1;
+    unsigned int *zerobuf = calloc(1,sizeof(unsigned int));
+    assert(zerobuf != NULL);
+    return zerobuf;
+
+  }
+
   int k;
   bool crossings_consistent = true;
 
@@ -385,6 +394,8 @@ pd_code_t *pd_unpack(unsigned int *bitform)
      is positive. If the crossings are signed, the (int) casting 
      of bitform[0] is negative. */
   
+  if (bitform[0] == 0) { return pd_build_unknot(0); }
+
   pd_idx_t ncross;
   pd_signcross_t crtype;
   
-- 
2.43.0


From 8e12ae7c85e24bea885c35adb04a2c781e8d2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:32 +0000
Subject: [PATCH 18/71] fix: deleting the last loop of a diagram loses the tag
 of its component

---
 src/pd_crossingmoves.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 6b6f72f..d90b7e0 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -464,7 +464,9 @@ pd_code_t *pd_R1_loopdeletion(pd_code_t *pd,pd_idx_t cr)
 
     if (pd->ncomps == 1 && pd->ncross == 1 && pd->nedges == 2 && pd->nfaces == 3) {
 
-      return pd_build_unknot(0);
+      pd_code_t *unknot = pd_build_unknot(0);
+      unknot->comp[0].tag = pd->comp[0].tag;
+      return unknot;
 
     } else {
 
-- 
2.43.0


From ee77adc77f176f48319257c1a95eb97317547312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:18 +0000
Subject: [PATCH 19/71] fix: pd_connect_sum reads out of bounds when a summand
 is a 0-crossing unknot

---
 src/pd_crossingmoves.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index d90b7e0..e253090 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -2300,6 +2300,12 @@ pd_code_t *pd_connect_sum(pd_code_t *pdA, pd_idx_t edgeA,
   pd_check_edge(SRCLOC,pdA,edgeA);
   pd_check_edge(SRCLOC,pdB,edgeB);
 
+  /* The sum with a 0-crossing unknot, whose one edge has no ends
+     to reconnect, is the other summand. */
+
+  if (pdA->ncross == 0) { return pd_copy(pdB); }
+  if (pdB->ncross == 0) { return pd_copy(pdA); }
+
   /* The algorithm here is straightforward; allocate space,
      copy crossings and edges, then reconnect edges. */
 
-- 
2.43.0


From ab07f57529c098b57482cc526e822d1ddad1ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 20/71] fix: the dihedral and cyclic group checks accept maps
 that are neither rotations nor reflections

---
 src/pd_cyclic.c   | 2 +-
 src/pd_dihedral.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index 8825e68..cbbf609 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -216,7 +216,7 @@ bool pd_cyclic_ok(void *cyclicP)
 
   for(i=0;i<(c->n)-1;i++) {
 
-    if (c->map[i] >= c->map[i+1] && !(c->map[i] == (c->n)-1 && c->map[i+1] == 0)) { 
+    if (c->map[i+1] != (c->map[i] == (c->n)-1 ? 0 : c->map[i] + 1)) { 
 
       return pd_error(SRCLOC,"%CYCLIC has isn't a rotation.\n",NULL,c);
 
diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index c57d274..82e4a28 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -282,7 +282,7 @@ bool pd_dihedral_ok(void *dihedralP)
 
     for(i=0;i<(d->n)-1;i++) { 
 
-      if (d->map[i] <= d->map[i+1] && !(d->map[i] == 0 && d->map[i+1] == (d->n) - 1)) {
+      if (d->map[i+1] != (d->map[i] == 0 ? (d->n) - 1 : d->map[i] - 1)) {
 
 	return pd_error(SRCLOC,"%DIHEDRAL has negative orientation but isn't a reflection.\n",NULL,d);
 
@@ -294,7 +294,7 @@ bool pd_dihedral_ok(void *dihedralP)
 
     for(i=0;i<(d->n)-1;i++) {
 
-      if (d->map[i] >= d->map[i+1] && !(d->map[i] == (d->n)-1 && d->map[i+1] == 0)) { 
+      if (d->map[i+1] != (d->map[i] == (d->n)-1 ? 0 : d->map[i] + 1)) { 
 
 	return pd_error(SRCLOC,"%DIHEDRAL has positive orientation but isn't a rotation.\n",NULL,d);
 
-- 
2.43.0


From 9b8a2d6617da2fc086bd49658e525ab7f9fa0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 21/71] fix: pd_perm_ok reads past the precomputed permutations
 when the index equals their number

---
 src/pd_perm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pd_perm.c b/src/pd_perm.c
index 41cf09b..5e91a27 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -195,9 +195,9 @@ bool pd_perm_ok(void *permP)
 
   if (perm->n <= PD_MAX_PC_PERM) { /* Check perm->pc_idx legal. */
 
-    if (perm->pc_idx > pd_nperms(perm)) {
+    if (perm->pc_idx >= pd_nperms(perm)) {
 
-      return pd_error(SRCLOC,"%PERM precomputed idx # %d > # %d-element precomp perms == %d",NULL,
+      return pd_error(SRCLOC,"%PERM precomputed idx # %d >= # %d-element precomp perms == %d",NULL,
 		      perm,perm->pc_idx,pd_nperms(perm));
 
     }
-- 
2.43.0


From 74e64209bf4926f2fd8b70158bcc16c937671c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 22/71] fix: pd_stareq_perm leaves the precomputed index of the
 old permutation

---
 src/pd_perm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_perm.c b/src/pd_perm.c
index 5e91a27..b76a9d9 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -501,6 +501,8 @@ void pd_stareq_perm(pd_perm_t *A,pd_perm_t *B)
   
   memcpy(A->map,newmap,n*sizeof(pd_idx_t));
   free(newmap);
+
+  pd_regenerate_pcidx(A);
 }
   
 unsigned int pd_perm_period(pd_perm_t *A) 
-- 
2.43.0


From 3921489c750d04dbf4de8ee2afc2fb5e8a93a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 23/71] fix: the uniqueness checks of the iterators read out of
 bounds on an empty list

---
 src/pd_cyclic.c      | 2 +-
 src/pd_dihedral.c    | 2 +-
 src/pd_multidx.c     | 2 +-
 src/pd_orientation.c | 2 +-
 src/pd_perm.c        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index cbbf609..4fe911a 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -264,7 +264,7 @@ bool pd_cyclics_unique(unsigned int ncyclics,pd_cyclic_t **cyclic_buf)
 
   unsigned int i;
 
-  for(i=0;i<ncyclics-1;i++) {
+  for(i=0;i+1<ncyclics;i++) {
 
     if (pd_cyclic_cmp(&(cyclic_buf[i]),&(cyclic_buf[i+1])) == 0) {
 
diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index 82e4a28..dcdbeb7 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -351,7 +351,7 @@ bool pd_dihedrals_unique(unsigned int ndihedrals,pd_dihedral_t **dihedral_buf)
 
   unsigned int i;
 
-  for(i=0;i<ndihedrals-1;i++) {
+  for(i=0;i+1<ndihedrals;i++) {
 
     if (pd_dihedral_cmp(&(dihedral_buf[i]),&(dihedral_buf[i+1])) == 0) {
 
diff --git a/src/pd_multidx.c b/src/pd_multidx.c
index a8f865a..5b8ee93 100644
--- a/src/pd_multidx.c
+++ b/src/pd_multidx.c
@@ -251,7 +251,7 @@ bool pd_multidxs_unique(unsigned int nmultidxs,pd_multidx_t **multidx_buf)
 
   unsigned int i;
 
-  for(i=0;i<nmultidxs-1;i++) {
+  for(i=0;i+1<nmultidxs;i++) {
 
     if (pd_multidx_cmp(&(mb_copy[i]),&(mb_copy[i+1])) == 0) {
 
diff --git a/src/pd_orientation.c b/src/pd_orientation.c
index b020dbc..32b44d9 100644
--- a/src/pd_orientation.c
+++ b/src/pd_orientation.c
@@ -179,7 +179,7 @@ bool pd_orientations_unique(unsigned int norientations,pd_orientation_t **orient
 
   unsigned int i;
 
-  for(i=0;i<norientations-1;i++) {
+  for(i=0;i+1<norientations;i++) {
 
     if (pd_orientation_cmp(&(orientation_buf[i]),&(orientation_buf[i+1])) == 0) {
 
diff --git a/src/pd_perm.c b/src/pd_perm.c
index b76a9d9..48e480b 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -320,7 +320,7 @@ bool pd_perms_unique(unsigned int nperms,pd_perm_t **perm_buf)
 
   unsigned int i;
 
-  for(i=0;i<nperms-1;i++) {
+  for(i=0;i+1<nperms;i++) {
 
     if (pd_perms_eq(perm_buf[i],perm_buf[i+1])) {
 
-- 
2.43.0


From 6a2b83f7ce983404baf16e7339932aa7d3ff6cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:36 +0000
Subject: [PATCH 24/71] fix: adding or dropping a component keeps constraints
 on their components

plc_add_component and plc_drop_component renumber components but left the
constraint list alone, so constraints moved to other components (or to
vertices which do not exist).
---
 src/plCurve.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 69ff4f1..6b487c1 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2030,6 +2030,7 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
                       const plc_vector * const vt,
            /*@null@*/ const plc_color * const clr) {
   plc_strand *cp;
+  plc_constraint *cst;
 
   assert(L != NULL);
   assert(nv >= 1);
@@ -2039,6 +2040,11 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
   assert(add_as >= 0);
   assert(add_as <= L->nc);
 
+  /* The constraints on the components which move up have to follow them. */
+  for (cst = L->cst; cst != NULL; cst = cst->next) {
+    if (cst->cmp >= add_as) { cst->cmp++; }
+  }
+
   L->nc++;
   /*@-compdestroy@*/
   L->cp = realloc(L->cp,L->nc*sizeof(plc_strand));
@@ -2075,12 +2081,27 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
 
 void plc_drop_component(plCurve *L, const int cmp) {
   int cnt;
+  plc_constraint **cst_pptr,*cst;
 
   assert(L != NULL);
   assert(cmp >= 0);
   assert(cmp < L->nc);
   assert(L->nc > 0);
 
+  /* The constraints on this component go with it; the constraints on the
+     components which move down have to follow them. */
+  cst_pptr = &L->cst;
+  while ((*cst_pptr) != NULL) {
+    cst = *cst_pptr;
+    if (cst->cmp == cmp) {
+      *cst_pptr = cst->next;
+      free(cst);
+    } else {
+      if (cst->cmp > cmp) { cst->cmp--; }
+      cst_pptr = &(cst->next);
+    }
+  }
+
   L->nc--;
   L->cp[cmp].vt--;
   free(L->cp[cmp].vt);
-- 
2.43.0


From a6c266996fc6b8f4b1626864c95cab0f16966abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:52 +0000
Subject: [PATCH 25/71] fix: constraints on different components are joined
 into one run

overrun_check combined a run with the following one when the vertex numbers
were adjacent without checking that both are on the same component.
---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 6b487c1..86daa4b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -506,6 +506,7 @@ static inline void overrun_check(plc_constraint *cst) {
   }
   /* Now combine adjacent constraints if possible */
   while (cst->next != NULL &&
+         cst->next->cmp == cst->cmp &&
          cst->next->vert == cst->vert+cst->num_verts &&
          cst->next->kind == cst->kind &&
          cst->kind != fixed &&
-- 
2.43.0


From 3f05d199c17a83282cac1f30993360bb8482d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:09 +0000
Subject: [PATCH 26/71] fix: plc_read allocates too little room for constraints

The table of constraint definitions is meant to grow by tens, but its size
was computed with % instead of /, so that it shrank (to 10 or even 0
entries) for constraint number 30 and others, and plc_read wrote past it.
---
 src/plCurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 86daa4b..3b08211 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1309,7 +1309,7 @@ void plc_fix_wrap(plCurve * const L) {
       return NULL;
     }
     if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) % 10)); /* Allocate by 10s */
+      cst_list_len = (size_t)(10*((cst_num+11) / 10)); /* Allocate by 10s */
       assert(cst_list->next == NULL);
       cst_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
       assert(cst_list != NULL);
-- 
2.43.0


From 16ecb0b1e27b879223fa77091689a9049b831f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:09 +0000
Subject: [PATCH 27/71] fix: plc_write cuts off the constraint number after
 long coordinates

Three coordinates take up to 71 characters, which left no room for the
constraint number in the 80-character line buffer, and the file could not be
read back.
---
 src/plCurve.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 3b08211..2d6ba68 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -800,8 +800,8 @@ void plc_write(FILE *outfile, plCurve * const L) {
   int i,j;                  /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
-  char outstr2[80] = "";    /* Again for wrapping */
+  char outstr[256] = "";    /* So we can wrap the vertex lines */
+  char outstr2[128] = "";   /* Again for wrapping */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
   plc_constraint *cst;  /* Current constraint */
@@ -892,7 +892,7 @@ void plc_write(FILE *outfile, plCurve * const L) {
   for (i=0; i<L->nc; i++) {
     fprintf(outfile,"# Component %d\n",i);
     for (j=0; j<L->cp[i].nv; j++) {
-      (void)snprintf(outstr,sizeof(outstr),"%.16g %.16g %.16g",
+      (void)snprintf(outstr,sizeof(outstr2),"%.16g %.16g %.16g",
           plc_M_clist(L->cp[i].vt[j]));
       if (cst_nums[i][j] != 0) {
         strcpy(outstr2,outstr);
-- 
2.43.0


From e0831df8b2f465f0360365703c594f5ac733fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:09 +0000
Subject: [PATCH 28/71] fix: plc_write rounds constraints to six digits

The vertices are written with 16 digits, but the points, lines and planes
they are constrained to were written with 6, so a written and re-read curve
no longer met its constraints.
---
 src/plCurve.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 2d6ba68..603f08a 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -870,13 +870,13 @@ void plc_write(FILE *outfile, plCurve * const L) {
                                 cst->num_verts, cst_list);
       cst_num++;
       if (cst->kind == fixed) {
-        fprintf(outfile, "# Constraint %d Fixed %g %g %g\n", cst_num,
+        fprintf(outfile, "# Constraint %d Fixed %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]));
       } else if (cst->kind == line) {
-        fprintf(outfile, "# Constraint %d Line %g %g %g %g %g %g\n", cst_num,
+        fprintf(outfile, "# Constraint %d Line %.16g %.16g %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), plc_M_clist(cst->vect[1]));
       } else if (cst->kind == plane) {
-      fprintf(outfile, "# Constraint %d Plane %g %g %g %g\n", cst_num,
+      fprintf(outfile, "# Constraint %d Plane %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), cst->vect[1].c[0]);
       }
     }
-- 
2.43.0


From 8b6533127d307acc87d8e693e9aef4efcadc900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:13 +0000
Subject: [PATCH 29/71] fix: plc_read aborts on files with impossible vertex or
 color counts

A component with no vertices, or with a negative number of colors or more
colors than vertices, ran into the assertions of plc_new instead of
returning NULL and an error.
---
 src/plCurve.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 603f08a..72145c8 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -42,6 +42,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 /* Utility routines */
@@ -1255,6 +1256,26 @@ void plc_fix_wrap(plCurve * const L) {
   }
   /*@=loopexec@*/
 
+  /* Check that the numbers describe a plCurve before we try to create it. */
+
+  for(i=0; i<ncomp; i++) {
+    if (nvarray[i] < 1 || nvarray[i] > INT_MAX-2) {
+      *error_num = PLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Bad number of vertices in component %d.\n", i);
+    } else if (ccarray[i] < 0 || ccarray[i] > nvarray[i]) {
+      *error_num = PLC_E_BAD_CLR_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Bad <ncolors> for component %d.\n", i);
+    }
+    if (*error_num != 0) {
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
+  }
+
   /* We now allocate the plCurve data structure. */
 
   L = plc_new(ncomp,nvarray,open,ccarray);
-- 
2.43.0


From 3cbcda708de0200242985b52f5c102f666f3671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:35 +0000
Subject: [PATCH 30/71] fix: plc_read uses the text of a bad constraint line
 after freeing it

Two of the error messages quote a part of the comment buffer which had just
been freed.
---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 72145c8..d802d38 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1323,10 +1323,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_NUM;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
+      free(comment);
       return NULL;
     }
     if (cst_num+1 > (int)cst_list_len) {
@@ -1412,10 +1412,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_KIND;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Unrecognized constraint kind '%s'.\n",place);
+      free(comment);
       return NULL;
     }
   }
-- 
2.43.0


From f8486885c4581fd2b581d0d76a8e9c9b546a7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:35 +0000
Subject: [PATCH 31/71] fix: plc_read uses constraints which the file does not
 define

A vertex line may name any constraint number, which was used as an index
into the table of definitions without a check (and the part of the table
added by realloc was not initialized).
---
 src/plCurve.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index d802d38..c829d71 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1329,11 +1329,25 @@ void plc_fix_wrap(plCurve * const L) {
       free(comment);
       return NULL;
     }
-    if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) / 10)); /* Allocate by 10s */
+    if ((size_t)cst_num+1 > cst_list_len) {
+      size_t new_len = 10*(((size_t)cst_num+11) / 10); /* Allocate by 10s */
+      plc_constraint *new_list;
       assert(cst_list->next == NULL);
-      cst_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
-      assert(cst_list != NULL);
+      new_list = realloc(cst_list,new_len*sizeof(plc_constraint));
+      if (new_list == NULL) {
+        plc_free(L);
+        free(cst_list);
+        free(comment);
+        *error_num = PLC_E_BAD_CST_NUM;
+        (void)snprintf(error_str,error_str_len,
+          "plc_read: Constraint number %d is too large.\n",cst_num);
+        return NULL;
+      }
+      cst_list = new_list;
+      /* The new entries are not defined yet. */
+      memset(&cst_list[cst_list_len],0,
+             (new_len-cst_list_len)*sizeof(plc_constraint));
+      cst_list_len = new_len;
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
@@ -1453,6 +1467,17 @@ void plc_fix_wrap(plCurve * const L) {
             "plc_read: Bad numbers for constraint %d.\n",cst_num);
           return NULL;
         }
+        if (cst_num < 0 || (size_t)cst_num >= cst_list_len ||
+            (cst_num != 0 && cst_list[cst_num].kind == unconstrained)) {
+          plc_free(L);
+          assert(cst_list->next == NULL);
+          free(cst_list);
+          free(comment);
+          *error_num = PLC_E_BAD_CST_NUM;
+          (void)snprintf(error_str,error_str_len,
+            "plc_read: Constraint %d is not defined.\n",cst_num);
+          return NULL;
+        }
       }
       free(comment);
       if (cst_num != prev_cst_num) {
-- 
2.43.0


From 5eef7fbad3d4c3ede569e152b152fc0f740b26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 32/71] fix: plc_read reads past a constraint line at the end
 of the file

When a constraint definition ends the comment text, the position behind its
last word is past the terminating zero.
---
 src/plCurve.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index c829d71..cb73f5c 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1177,7 +1177,7 @@ void plc_fix_wrap(plCurve * const L) {
   int ds; /* Doubles scanned */
   /*@temp@*/ char *place;
   char *space = " ";
-  size_t parsed;
+  size_t parsed, comment_len;
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
@@ -1300,6 +1300,7 @@ void plc_fix_wrap(plCurve * const L) {
   while ((place = strcasestr(comment,"Constraint ")) != NULL) {
     /* Move the word "Constraint to the beginning of the string */
     memmove(comment,place,strlen(place)+1);
+    comment_len = strlen(comment);
     /* Now start tokenizing */
     place = strtok(comment, space); /* "Constraint" */
 #define place_not_null \
@@ -1352,6 +1353,7 @@ void plc_fix_wrap(plCurve * const L) {
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
     parsed += strlen(place)+1;
+    if (parsed > comment_len) { parsed = comment_len; } /* No numbers */
     if (strcasestr(place,"Fixed") != NULL) {
       cst_list[cst_num].kind = fixed;
       if (sscanf(&comment[parsed],"%lf %lf %lf",
@@ -1373,6 +1375,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
+      if (parsed > comment_len) { parsed = comment_len; } /* That was all */
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else if (strcasestr(place,"Line") != NULL) {
       cst_list[cst_num].kind = line;
@@ -1397,6 +1400,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
+      if (parsed > comment_len) { parsed = comment_len; } /* That was all */
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else if (strcasestr(place,"Plane") != NULL) {
       cst_list[cst_num].kind = plane;
@@ -1421,6 +1425,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
+      if (parsed > comment_len) { parsed = comment_len; } /* That was all */
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else {
       plc_free(L);
-- 
2.43.0


From 69b588fda8f25d72f6d3aa9a39681aa854916250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 33/71] fix: plc_read aborts when consecutive vertices use one
 fixed constraint

---
 src/plCurve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index cb73f5c..67baa9f 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1485,7 +1485,10 @@ void plc_fix_wrap(plCurve * const L) {
         }
       }
       free(comment);
-      if (cst_num != prev_cst_num) {
+      /* A fixed constraint only ever applies to one vertex, so if several
+       * vertices in a row use it, each of them is a run of its own. */
+      if (cst_num != prev_cst_num ||
+          (cst_num != 0 && cst_list[cst_num].kind == fixed)) {
         if (prev_cst_num != 0) {
           plc_set_constraint(L, i, prev_cst_vert, j - prev_cst_vert,
               cst_list[prev_cst_num].kind, cst_list[prev_cst_num].vect);
-- 
2.43.0


From b6ab298917a584b7b5ef4fea9ddb471fa2ba9520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:20 +0000
Subject: [PATCH 34/71] fix: plc_dihedral_angle accepts a NULL ok pointer on
 success too

---
 src/vector.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 5b8e18f..6eea466 100755
--- a/src/vector.c
+++ b/src/vector.c
@@ -418,10 +418,9 @@ double plc_dihedral_angle(plc_vector A, plc_vector B, plc_vector C, plc_vector D
   /* With these three vectors, we should be able to compute the dihedral. */
   /* If we got this far, we'll get a result. */
 
-  *ok = true;
-
-  double theta = plc_angle(normABC,normACD,ok);
-  if (!(*ok)) { return 0; } 
+  double theta = plc_angle(normABC,normACD,&local_ok);
+  if (ok != NULL) { *ok = local_ok; }
+  if (!local_ok) { return 0; } 
 
   /* We have the angle. The question is how the angle is oriented. */
 
-- 
2.43.0


From 5e6d137fbf7a0548fcdadf5af6106a4b7ff8753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:20 +0000
Subject: [PATCH 35/71] fix: lu_decmp reports success and does not leak on
 failure

---
 src/matrix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix.c b/src/matrix.c
index 7913804..d04567d 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -100,6 +100,7 @@ plc_matrix  *lu_decmp(plc_matrix *A,int index[3],double *d,bool *ok)
     if (big == 0.0) {
 
       *ok = false;
+      free(cvt);
       return NULL;
 
     }
@@ -187,6 +188,7 @@ plc_matrix  *lu_decmp(plc_matrix *A,int index[3],double *d,bool *ok)
 
   /* We are now done. Our mission is to return the data. */
 
+  *ok = true;
   return cvt;
 
   }
-- 
2.43.0


From cc03f80412d7114ac9a5a79822214a947d97b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:14 +0000
Subject: [PATCH 36/71] fix: plc_s does not count a closing edge for open
 components

---
 src/plCurve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 67baa9f..15bf0e7 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -236,7 +236,9 @@ double plc_s(const plCurve * const L, const int cmp, const int vert)
 
   for(c = 0;c < cmp;c++) {
 
-    for(v = 1;v <= L->cp[c].nv; v++) {
+    int nedges = L->cp[c].open ? L->cp[c].nv-1 : L->cp[c].nv;
+
+    for(v = 1;v <= nedges; v++) {
 
       d = plc_M_sq_dist(L->cp[c].vt[v-1],L->cp[c].vt[v])  /* ok not to ; */
       s += sqrt(d);	
-- 
2.43.0


From 64802700991dfff9c95c632ca1323128e62cd792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:14 +0000
Subject: [PATCH 37/71] fix: plc_turning_angle sets ok at the ends of open
 components

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 15bf0e7..2d2bff3 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1651,6 +1651,7 @@ double plc_turning_angle(plCurve * const L, const int cp, const int invt, bool *
   
   if (L->cp[cp].open && (vt <= 0 || vt >= L->cp[cp].nv-1)) { // Addressing past ends of open curve yields zero
 
+    if (ok != NULL) { *ok = true; }
     return 0;
 
   } 
-- 
2.43.0


From 64a737ea99df75b6f95a84545abb539fcaedb3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:14 +0000
Subject: [PATCH 38/71] fix: plc_rotate accepts axes of any length and carries
 the constraints along

---
 src/plCurve.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 2d2bff3..8599026 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2612,10 +2612,26 @@ void plc_pfm(plCurve *link, int cp, int vt0, int vt1, double angle)
 void plc_rotate(plCurve *link, plc_vector axis, double angle)
 
 /* Rotate the link around a given axis. The tricky part is that we must transform the 
-   symmetry group accordingly. FIXME: We need to transform constraints, too! */
+   symmetry group (and the constraints) accordingly. */
 
 {
   int vt,cp;
+  bool axis_ok;
+  plc_constraint *cst;
+
+  axis = plc_normalize_vect(axis,&axis_ok);
+  if (!axis_ok) { return; } /* Can't rotate around a zero-length axis! */
+
+  for(cst=link->cst;cst != NULL;cst=cst->next) {
+
+    if (cst->kind == fixed || cst->kind == line || cst->kind == plane) {
+      cst->vect[0] = plc_rotate_vect(cst->vect[0],axis,angle);
+    }
+    if (cst->kind == line) { /* For planes, vect[1] is only a distance. */
+      cst->vect[1] = plc_rotate_vect(cst->vect[1],axis,angle);
+    }
+
+  }
 
   if (link->G != NULL) {
 
-- 
2.43.0


From 9668b6541f3600d848c65889fcc64445899823b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:14 +0000
Subject: [PATCH 39/71] fix: plc_random_rotate turns the axis (0,0,-1) to
 (0,0,1)

---
 src/plCurve.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8599026..02a17db 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2859,9 +2859,21 @@ void plc_random_rotate(plCurve *link, plc_vector axis)
     /* Finally, we changed vertices, so we need to */
     
     plc_fix_wrap(link);
+
+  } else if (zrand < 0) { /* The axis is (0,0,-1): turn the link over. */
+
+    for(cp=0;cp < link->nc;cp++) {
+      for(vt=0;vt<link->cp[cp].nv;vt++) {
+	link->cp[cp].vt[vt].c[1] *= -1;
+	link->cp[cp].vt[vt].c[2] *= -1;
+      }
+    }
+
+    plc_fix_wrap(link);
+
   }
 
-  // else z is essentially 0 so we'll just leave things as is
+  // else the axis is (0,0,1) so we'll just leave things as is
 }
 
 
-- 
2.43.0


From 79521186a34d284776dcb3214d01af8eeea3a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:14 +0000
Subject: [PATCH 40/71] fix: plc_mean_squared_chordlengths wraps skips longer
 than the component

---
 src/plCurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 02a17db..a0e5097 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2980,7 +2980,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
       for(i=0;i<nskips;i++) {
 
-	for(a=bufferA,b=bufferB+skips[i];a<bufferA+numverts;a++,b++) {
+	for(a=bufferA,b=bufferB+(skips[i] % numverts);a<bufferA+numverts;a++,b++) {
 	  
 	  means[i] += plc_M_sq_dist(*a,*b);
 
-- 
2.43.0


From d7e1614b7b01ba5b1857500792789c746f3bd3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:14 +0000
Subject: [PATCH 41/71] fix: plc_dihedral_angles counts 2 (n 4) angles and
 respects an odd cap

---
 src/plc_dihedrals.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/plc_dihedrals.c b/src/plc_dihedrals.c
index bc7890c..53c8f78 100644
--- a/src/plc_dihedrals.c
+++ b/src/plc_dihedrals.c
@@ -41,6 +41,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 #ifdef HAVE_GSL_GSL_COMBINATION_H
@@ -61,7 +62,16 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
 {
   int n = L->cp[0].nv;
 
-  unsigned int max_ndihedrals = (n*(n-1)*(n-2)*(n-3)*(n-4))/4;
+  unsigned int max_ndihedrals = 0;
+
+  if (n >= 4) { /* 2 (n 4), computed without overflow */
+
+    unsigned long long nquads = (unsigned long long)(n)*(n-1)/2;
+    nquads = nquads*(n-2)/3;
+    nquads = nquads*(n-3)/4;
+    max_ndihedrals = 2*nquads > UINT_MAX ? UINT_MAX : (unsigned int)(2*nquads);
+
+  }
 
   if (*ndihedrals == 0) { 
 
@@ -74,7 +84,7 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
   }
 
   float *angles;
-  angles = calloc(*ndihedrals,sizeof(float));
+  angles = calloc(*ndihedrals > 0 ? *ndihedrals : 1,sizeof(float));
   
   if (angles == NULL) { 
 
@@ -82,6 +92,8 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
 
   }
 
+  if (*ndihedrals == 0) { return angles; } /* There are no quadruples of vertices. */
+
   gsl_combination *combo;
   combo = gsl_combination_calloc(n,4);
 
@@ -108,6 +120,8 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
     i++;
     
+    if (i >= *ndihedrals) { break; } /* The cap may be odd. */
+
     angles[i] = plc_angle(plc_normal(a,b,c,&ok1),plc_normal(c,d,a,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
     i++;
-- 
2.43.0


From 00a103490216aa3e79db30eabe926a5bd78539db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 42/71] fix: plc_whitten does not read past the end of the
 permutation

---
 src/plwhitten.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index 3f9b729..e6875ef 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -81,7 +81,7 @@ int  iperm(int permsize,int *perm,int ind)
 {
   int i;
 
-  for(i=permsize;i>0;i--) {
+  for(i=permsize-1;i>0;i--) {
     
     if (perm[i] == ind) { return perm[i-1]; }
 
-- 
2.43.0


From 1e224fd9f3d2020f9d59fe99081794a3e306bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 43/71] fix: plc_whitten reverses the constraints of the
 reversed component only

---
 src/plwhitten.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index e6875ef..c49abbb 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -214,7 +214,7 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
       for(tc=L->cst;tc != NULL;tc=tc->next) {
 
-	tc->vert = (nv-1) - (tc->vert + tc->num_verts); 
+	if (tc->cmp == cp) { tc->vert = nv - (tc->vert + tc->num_verts); }
 
       }
 
-- 
2.43.0


From ad09ff19a3ad26cd5467796e9ef6bd001f9311d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 44/71] fix: plc_whitten keeps the constraints in order

---
 src/plwhitten.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index c49abbb..d15a361 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -222,6 +222,24 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
   }
 
+  /* The list of constraints is kept in order of component and vertex. */
+
+  plc_constraint *sorted = NULL, *next, **pos;
+
+  for(tc=L->cst;tc != NULL;tc=next) {
+
+    next = tc->next;
+
+    for(pos=&sorted;*pos != NULL && ((*pos)->cmp < tc->cmp ||
+	  ((*pos)->cmp == tc->cmp && (*pos)->vert < tc->vert));pos=&((*pos)->next));
+
+    tc->next = *pos;
+    *pos = tc;
+
+  }
+
+  L->cst = sorted;
+
   plc_fix_wrap(L);
 
   /* We have now applied everything. */
-- 
2.43.0


From 54514cddfa17cba0fcbf7cc94efd470d8e47746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 45/71] fix: plc_double_verts colours every vertex of coloured
 components only

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index a0e5097..45f5a26 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2459,9 +2459,9 @@ plCurve *plc_double_verts(plCurve *L)
 
       newL->cp[cmp].clr[0] = L->cp[cmp].clr[0];
 
-    } else {
+    } else if (newL->cp[cmp].cc > 1) {
 
-      for(vt=0;vt<L->cp[cmp].nv-1;vt++) {
+      for(vt=0;vt<L->cp[cmp].nv;vt++) {
 
 	newL->cp[cmp].clr[2*vt+1] = newL->cp[cmp].clr[2*vt] = L->cp[cmp].clr[vt];
 	
-- 
2.43.0


From 602c40ed6d7c2b5483eb530ec076af053e3c8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 46/71] fix: plc_loop_closure can close other components than
 the first

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 13ab911..cf7bc3f 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1239,7 +1239,7 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
   assert(newVerts != NULL);
 
   for(vt=0;vt<openL->cp[cp].nv;vt++) { newVerts[vt] = openL->cp[cp].vt[vt]; }
-  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[cp].vt[ca_vt]; }
+  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[0].vt[ca_vt]; }
 
   assert(ca_vt == closureArc->cp[0].nv-1 && vt == nEdges); /* These should finish at the same time */
 
-- 
2.43.0


From 17c0b24772a175dc28f38edfedf653be36cbd788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 47/71] fix: plc_coordplanes_reflection_group fails when any of
 the reflections fails

---
 src/symmetries.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.c b/src/symmetries.c
index ccd9d2d..096e19a 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -440,7 +440,7 @@ plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
   /* We need to scan and make sure the builds succeeded. */
 
   int i;
-  for(i=0;i<2;i++) {
+  for(i=0;i<build->n;i++) {
 
     if (build->sym[i] == NULL) {
 
-- 
2.43.0


From b35fce75f26c85234afa3c803a58e258996542b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:38 +0000
Subject: [PATCH 48/71] fix: plc_delete_arc keeps the colours of the remaining
 vertices

---
 src/plCurve.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 45f5a26..208e096 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -3001,6 +3001,28 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
   }
 
     
+  static void keep_arc_colors(plCurve *newL,plCurve *L,int cp,int first)
+
+  /* Component cp of newL now has the vertices of L from first on: */
+  /* give it their colors, if L has one color for each vertex.     */
+
+  {
+    int vt;
+
+    if (L->cp[cp].cc > 1 && L->cp[cp].cc == L->cp[cp].nv) {
+
+      for(vt = 0;vt < newL->cp[cp].nv;vt++) {
+
+	newL->cp[cp].clr[vt] = L->cp[cp].clr[(vt + first) % L->cp[cp].nv];
+
+      }
+
+      newL->cp[cp].cc = newL->cp[cp].nv;
+
+    }
+
+  }
+
   plCurve *plc_delete_arc(plCurve *L,int cp,int vt1, int vt2)
 
   /* Delete a subarc from a component of a plCurve between vt1 and vt2    */
@@ -3044,6 +3066,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 	  }
 	  
 	  newL->cp[cp].nv = L->cp[cp].nv - (vt2+1);
+	  keep_arc_colors(newL,L,cp,vt2+1);
 	  plc_fix_wrap(newL);
 
 	  return newL;
@@ -3053,14 +3076,21 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
       } else if (vt2 >= L->cp[cp].nv-1) { /* Cut off the end of the component. */
 
 	newL->cp[cp].nv = vt1;
+	keep_arc_colors(newL,L,cp,0);
 	plc_fix_wrap(newL);
 
 	return newL;
 
       } else { /* vt1 > 0, vt2 < L->cp[cp].nv-1, and L->cp[cp].open == true */
 
-	plc_add_component(newL,cp+1,L->cp[cp].nv-(vt2+1),true,0,&(L->cp[cp].vt[vt2+1]),NULL);
+	bool vclr = (L->cp[cp].cc > 1 && L->cp[cp].cc == L->cp[cp].nv);
+
+	plc_add_component(newL,cp+1,L->cp[cp].nv-(vt2+1),true,
+			  vclr ? L->cp[cp].nv-(vt2+1) : L->cp[cp].cc,
+			  &(L->cp[cp].vt[vt2+1]),
+			  vclr ? &(L->cp[cp].clr[vt2+1]) : L->cp[cp].clr);
 	newL->cp[cp].nv = vt1;
+	keep_arc_colors(newL,L,cp,0);
 	plc_fix_wrap(newL);
 
 	return newL;
@@ -3087,6 +3117,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
 	}
 	newL->cp[cp].open = true;
+	keep_arc_colors(newL,L,cp,vt2+1);
 	plc_fix_wrap(newL);
 
 	return newL;
@@ -3103,6 +3134,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
 	}
 	newL->cp[cp].open = true;
+	keep_arc_colors(newL,L,cp,vt2+1);
 	plc_fix_wrap(newL);
 
 	return newL;
-- 
2.43.0


From dbf4a78d00f9409fceb489f834806be3efac89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:38 +0000
Subject: [PATCH 49/71] fix: plc_symmetrize updates the wrap-around vertices

---
 src/symmetries.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/symmetries.c b/src/symmetries.c
index 096e19a..96d3c4b 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -512,6 +512,7 @@ void plc_symmetrize(plCurve *L)
   }
 	  
   free(point_covered);
+  plc_fix_wrap(L);
 
 }
 
-- 
2.43.0


From 8dc82fcb328464979f3e5656d7aff6ac166ca093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:38 +0000
Subject: [PATCH 50/71] fix: plc_coordplanes_reflection_group is closed under
 composition

---
 src/symmetries.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/symmetries.c b/src/symmetries.c
index 96d3c4b..97a4d43 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -411,11 +411,13 @@ plc_symmetry_group *plc_reflection_group(plCurve *L,plc_vector axis)
 
 plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
 
-/* Creates reflections over the x-y, y-z, and z-x planes. */
+/* Creates the group generated by reflections over the x-y, y-z, and z-x planes. */
+/* Its eight elements are the reflections, their products and the identity:      */
+/* without the products, averaging over the elements doesn't make L symmetric.   */
 
 {
   plc_symmetry_group *build;
-  build = plc_symmetry_group_new(4);
+  build = plc_symmetry_group_new(8);
 
   /* We now try to set up the group. */
 
@@ -432,10 +434,20 @@ plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
   plc_reflection_matrix(plc_build_vect(0,0,1),&A);
   build->sym[3] = plc_build_symmetry(&A,L);
 
+  int j;
+  for(j=4;j<8;j++) { /* The products of two reflections (x and y, y and z, z and x), and of all three. */
+
+    plc_identity_matrix(&A);
+    if (j != 5) { A[0][0] = -1; }
+    if (j != 6) { A[1][1] = -1; }
+    if (j != 4) { A[2][2] = -1; }
+    build->sym[j] = plc_build_symmetry(&A,L);
+
+  }
+
   /* All elements are their own inverses */
 
-  build->inverse[0] = 0; build->inverse[1] = 1; 
-  build->inverse[2] = 2; build->inverse[3] = 3;
+  for(j=0;j<8;j++) { build->inverse[j] = j; }
 
   /* We need to scan and make sure the builds succeeded. */
 
-- 
2.43.0


From 44fa1dbde6f92e60307872b11bb8a0a9134842d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:41 +0000
Subject: [PATCH 51/71] fix: octrope does not lose struts at vertices to
 rounding

---
 src/octrope.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index c319f16..140ec3c 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -749,6 +749,11 @@ box *build_octree(const plCurve *L,const int sl_size,
   return tree_swath[octree_levels-1]; 
 } /* build_octree */
 
+/* Points this close to the boundary of a slab or ramp count as within it: when
+ * the strut ends at a vertex, rounding must not put the far end outside of the
+ * slabs and ramps of both edges at that vertex, or the strut would be lost. */
+#define boundary_tol(V) (1e-9*(fabs((V).c[0]) + fabs((V).c[1]) + fabs((V).c[2])))
+
 static varr *wedgecheck_edge[2];
 int wedge_check(varr *edge, const plc_vector v[3], 
                 const plc_vector far_edge[3], double percent,
@@ -797,7 +802,7 @@ int wedge_check(varr *edge, const plc_vector v[3],
 
   plc_M_sub_vect(far_end,v[1]);
   dot_product = plc_M_dot(slab_normal,far_end)/slab_norm;
-  if (dot_product > 0) { /* Inside slab */
+  if (dot_product > boundary_tol(far_end)) { /* Inside slab */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       wc_count[1]++;
@@ -806,7 +811,7 @@ int wedge_check(varr *edge, const plc_vector v[3],
     return false;
   }
   dot_product = plc_M_dot(ramp_normal,far_end)/ramp_norm;
-  if (dot_product > 0) { /* Behind ramp */
+  if (dot_product > boundary_tol(far_end)) { /* Behind ramp */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       wc_count[3]++;
@@ -851,6 +856,7 @@ int ramp_check(varr *edge, const plc_vector v[3],
   static double ramp_norm;
   plc_vector the_point;
   double dot_product;
+  double tol;
 
 #ifdef DEBUG
   if (octrope_debug_level() > 6) {
@@ -874,8 +880,9 @@ int ramp_check(varr *edge, const plc_vector v[3],
   }
   the_point = v3;
   plc_M_sub_vect(the_point,v[1]);
+  tol = boundary_tol(the_point);
   dot_product = plc_M_dot(slab_normal,the_point)/slab_norm;
-  if (!last_edge && dot_product > slab_norm) { /* In front of slab */
+  if (!last_edge && dot_product > slab_norm + tol) { /* In front of slab */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       rc_count[0]++;
@@ -892,7 +899,7 @@ int ramp_check(varr *edge, const plc_vector v[3],
     return 2;
   }
   dot_product = plc_M_dot(ramp_normal,the_point)/ramp_norm;
-  if (dot_product > 0) { /* Behind ramp */
+  if (dot_product > tol) { /* Behind ramp */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       rc_count[3]++;
-- 
2.43.0


From 3fd0161e58eac8d6c8973e7a9dc66655fa9dac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 52/71] fix: octrope_strutfile_read detects a missing STRUTS
 keyword

---
 src/octrope.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 140ec3c..259ca9f 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2127,14 +2127,14 @@ void octrope_strutfile_read(plCurve *L,
                             FILE *file)
 
 {
-  int i;
+  int i,matched = 0;
   octrope_strut ts;
   octrope_mrloc tmr;
   
   /* First, we check for the 'STRUTS' keyword. */
   
   octrope_error_num = octrope_error_str[0] = 0;
-  if (fscanf(file," STRUTS ") == EOF) {
+  if (fscanf(file," STRUTS%n",&matched) == EOF || matched == 0) {
     
     octrope_error_num = 20;
     sprintf(octrope_error_str,
-- 
2.43.0


From 242c8e42981394bdf3cb51e80bf967b57d04b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 53/71] fix: octrope_strutfile_write writes all digits of
 positions, lengths and radii

---
 src/octrope.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 259ca9f..db9b6d6 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2340,7 +2340,7 @@ void octrope_strutfile_write(int n_struts,octrope_strut *strutlist,
   
   for(i=0;i<n_struts;i++) {
 
-    fprintf(file,"%d %d %d %d %16g %16g %16g %16g\n",
+    fprintf(file,"%d %d %d %d %.16g %.16g %.16g %.16g\n",
             strutlist[i].component[0],
             strutlist[i].component[1],
             strutlist[i].lead_vert[0],
@@ -2354,7 +2354,7 @@ void octrope_strutfile_write(int n_struts,octrope_strut *strutlist,
 
   for(i=0;i<n_mrloc;i++) {
 
-    fprintf(file,"%d %d %16g %16g \n",
+    fprintf(file,"%d %d %.16g %.16g \n",
             mrlist[i].component,
             mrlist[i].vert,
             mrlist[i].mr,
-- 
2.43.0


From 71dc3c7c448e5255b015e7ff631edae5b8c32727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:16 +0000
Subject: [PATCH 54/71] fix: octrope_strutfile_read refuses struts with
 negative components or vertices

---
 src/octrope.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index db9b6d6..bccf576 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2198,7 +2198,8 @@ void octrope_strutfile_read(plCurve *L,
 
     ts = (*strutlist)[i];
 
-    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc) {
+    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc ||
+        ts.component[0] < 0 || ts.component[1] < 0) {
 
       octrope_error_num = 66;
       sprintf(octrope_error_str,
@@ -2210,7 +2211,8 @@ void octrope_strutfile_read(plCurve *L,
     }
 
     if (ts.lead_vert[0] >= L->cp[ts.component[0]].nv ||
-        ts.lead_vert[1] >= L->cp[ts.component[1]].nv) {
+        ts.lead_vert[1] >= L->cp[ts.component[1]].nv ||
+        ts.lead_vert[0] < 0 || ts.lead_vert[1] < 0) {
 
       octrope_error_num = 67;
       sprintf(octrope_error_str,
-- 
2.43.0


From d6cd67958e4333dc056e24c83427c59cf51c0f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:16 +0000
Subject: [PATCH 55/71] fix: octrope_strutfile_read checks the allocations, not
 the arguments

---
 src/octrope.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/octrope.c b/src/octrope.c
index bccf576..13d7f93 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2168,7 +2168,8 @@ void octrope_strutfile_read(plCurve *L,
   (*strutlist) = (octrope_strut *)calloc(*n_struts,sizeof(octrope_strut));
   (*mrlist)    = (octrope_mrloc *)calloc(*n_mrloc,sizeof(octrope_mrloc));
 
-  if (strutlist == NULL || mrlist == NULL) {
+  if ((*strutlist == NULL && *n_struts > 0) ||
+      (*mrlist == NULL && *n_mrloc > 0)) {
 
     octrope_error_num = 50;
     sprintf(octrope_error_str,
-- 
2.43.0


From 3d46efc35c67941d2d453e77f9e0fb994bef4177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:43 +0000
Subject: [PATCH 56/71] fix: plc_loop_closure fails cleanly when there is no
 closure

---
 src/plcRandomPolygon.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index cf7bc3f..4879912 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1210,6 +1210,14 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
 
   closureArc = plc_random_ftc_internal(r,nEdges - (openL->cp[cp].nv-1),closureLength,ftc,false);
 
+  if (closureArc == NULL) {
+
+    fprintf(stderr,"plc_loop_closure: No closure of length %g with %d edges for a gap of %g.\n",
+	    closureLength,nEdges - (openL->cp[cp].nv-1),ftc);
+    return NULL;
+
+  }
+
   /* There are two cases. If the original curve is already (numerically) closed, there is no operation here. */
   /* Otherwise, we'll need to rotate and translate the closureArc into place. */
 
-- 
2.43.0


From d4c3f213c240eebf8a53cc6c75da21e9dfb1f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:43 +0000
Subject: [PATCH 57/71] fix: plc_is_sap reports vertices too close to each
 other

---
 src/plcRandomSap.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/plcRandomSap.c b/src/plcRandomSap.c
index 2894ed3..001f59b 100644
--- a/src/plcRandomSap.c
+++ b/src/plcRandomSap.c
@@ -167,9 +167,9 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
 		       
-		return false;
-
 	      }
+
+	      return false;
 	      
 	    }
 	    
@@ -183,14 +183,18 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 	  
 	  for(vt2=0;vt2<L->cp[cp2].nv;vt2++) {
 	    
-	     if (verbose) {
+	    if (plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]) < 1.0-1e-10) {
+
+	      if (verbose) {
 
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
 		       
-		return false;
+	      }
 
-	     }
+	      return false;
+
+	    }
 
 	  }
 
-- 
2.43.0


From 8492bae99366c58301da1aa5e262c49a00e45813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:23 +0000
Subject: [PATCH 58/71] fix: plc_convert_from_spline wraps the colors of closed
 components

---
 src/splines.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index 251f6e7..04b110c 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -600,11 +600,12 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       /* And interpolate the colors */
       if (do_colors) {
+        int chi = (shi < spL->cp[comp].cc) ? shi : 0; /* the last piece of a closed strand ends at sample 0 */
         L->cp[comp].clr[i] = plc_build_color(
-            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[shi].r,
-            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[shi].g,
-            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[shi].b,
-            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[shi].alpha);
+            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[chi].r,
+            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[chi].g,
+            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[chi].b,
+            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[chi].alpha);
       }
     }
 
-- 
2.43.0


From 32458c671e38028b61d533461753e75db3f09d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:23 +0000
Subject: [PATCH 59/71] fix: plc_convert_from_spline keeps constraints within
 the component

---
 src/splines.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index 04b110c..091d608 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -616,6 +616,7 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
       if (cst->cmp == comp) { /* We need to translate this component */
 
 	double cst_slo,cst_shi;
+	bool   to_end = (cst->vert + cst->num_verts == spL->cp[comp].ns);
 	  
 	cst_slo = spL->cp[comp].svals[cst->vert];
 	cst_shi = spL->cp[comp].svals[cst->vert+cst->num_verts];
@@ -646,9 +647,16 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
 	  cst->num_verts = L->cp[comp].nv;
 
+	} else if (to_end) { /* Everything up to the last vert */
+
+	  cst->num_verts = L->cp[comp].nv - cst->vert;
+
 	} else { /* Scale the length from the old resolution */
 
 	  cst->num_verts = ceil(((cst_shi-cst_slo)/s_max)*L->cp[comp].nv);
+	  if (cst->num_verts > L->cp[comp].nv - cst->vert) {
+	    cst->num_verts = L->cp[comp].nv - cst->vert;
+	  }
 	  
 	}	
 	
-- 
2.43.0


From 8213e06a887291fcbc073ba55f0cec153ad3bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:23 +0000
Subject: [PATCH 60/71] fix: plc_convert_from_spline does not run past the end
 of open components by rounding

---
 src/splines.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index 091d608..4cb647c 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -583,6 +583,9 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
     for (i=0, slo=0, shi=1; i < L->cp[comp].nv; i++) {
 
       s = s_max*i/L->cp[comp].nv;
+      if (spL->cp[comp].open && s > spL->cp[comp].svals[spL->cp[comp].ns-1]) {
+        s = spL->cp[comp].svals[spL->cp[comp].ns-1]; /* rounding at the last vertex */
+      }
 
       /* Search to make sure that slo and shi bracket our current s.*/
 
-- 
2.43.0


From c8bbe41689627525471d523d5be2c83edd12e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:23 +0000
Subject: [PATCH 61/71] fix: plc_sample_spline and plc_spline_tangent stay
 within open components

---
 src/splines.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index 4cb647c..aefb26a 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -692,14 +692,24 @@ plc_vector plc_sample_spline(const plc_spline * const spL,
 
   /* Now fix any wraparound, so that the s value given is in [0,cmpLen). */
 
-  cmpLen = spL->cp[cmp].svals[spL->cp[cmp].ns];
-  while (s < DBL_EPSILON) {    s += cmpLen; }
-  while (s >= cmpLen) { s -= cmpLen; }
+  khi = spL->cp[cmp].open ? spL->cp[cmp].ns-1 : spL->cp[cmp].ns; /* The last sample on this strand */
+  cmpLen = spL->cp[cmp].svals[khi];
+
+  if (spL->cp[cmp].open) { /* There is nothing to wrap to; stay within the strand. */
+
+    if (s < 0) { s = 0; }
+    if (s > cmpLen) { s = cmpLen; }
+
+  } else {
+
+    while (s < DBL_EPSILON) {    s += cmpLen; }
+    while (s >= cmpLen) { s -= cmpLen; }
+
+  }
 
   /* We now search for the correct s value. */
 
   klo = 0;
-  khi = spL->cp[cmp].ns;
 
   while (khi-klo > 1) {
 
@@ -732,14 +742,24 @@ plc_vector plc_spline_tangent(const plc_spline * const spL,
 
   /* Now fix any wraparound, so that the s value given is in [0,cmpLen). */
 
-  cmpLen = spL->cp[cmp].svals[spL->cp[cmp].ns];
-  while (s < DBL_EPSILON) {    s += cmpLen; }
-  while (s >= cmpLen) { s -= cmpLen; }
+  khi = spL->cp[cmp].open ? spL->cp[cmp].ns-1 : spL->cp[cmp].ns; /* The last sample on this strand */
+  cmpLen = spL->cp[cmp].svals[khi];
+
+  if (spL->cp[cmp].open) { /* There is nothing to wrap to; stay within the strand. */
+
+    if (s < 0) { s = 0; }
+    if (s > cmpLen) { s = cmpLen; }
+
+  } else {
+
+    while (s < DBL_EPSILON) {    s += cmpLen; }
+    while (s >= cmpLen) { s -= cmpLen; }
+
+  }
 
   /* We now search for the correct s value. */
 
   klo = 0;
-  khi = spL->cp[cmp].ns;
 
   while (khi-klo > 1) {
 
-- 
2.43.0


From e2f7240f8806c9df57125a5f7fbb93234483d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:19 +0000
Subject: [PATCH 62/71] fix: pdcode_to_ccode terminates the code of a
 0-crossing diagram

---
 src/plcTopology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index aa5335b..fcfa79e 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -194,7 +194,7 @@ char *pdcode_to_ccode(pd_code_t *pd)
 
 {
   char *ccode;
-  int   ccode_size = 256*pd->ncross;
+  int   ccode_size = 256*pd->ncross + 3; /* The closing newlines are there even if there are no crossings */
 
   ccode = calloc(ccode_size,sizeof(char)); /* Get room for a big string */
 
-- 
2.43.0


From c57d857a475385a7434c12fec1ccfa81947e7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:19 +0000
Subject: [PATCH 63/71] fix: plc_lmpoly handles the code of a 0-crossing
 diagram

---
 src/pllmpoly02.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pllmpoly02.c b/src/pllmpoly02.c
index f8dab8b..5f6d0a2 100644
--- a/src/pllmpoly02.c
+++ b/src/pllmpoly02.c
@@ -168,7 +168,7 @@ char *plc_lmpoly(char *code, int timeout)
 
 } /* Count newlines */
 
- if (newlinecount == 3) { /* Exactly one crossing */
+ if (newlinecount <= 3) { /* At most one crossing */
 
    outpoly = calloc(128,sizeof(char));
    sprintf(outpoly,"[[1]]N ");
-- 
2.43.0


From a4396b729418d19e79a8302b6a0ab46ecaf64e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:19 +0000
Subject: [PATCH 64/71] fix: pd_classify does not free the diagram of its
 caller

---
 src/plcTopology.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index fcfa79e..b3d1007 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1643,7 +1643,6 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   }
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
-- 
2.43.0


From cfb09a47b3879d94e96863d7165abfbeed36788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:19 +0000
Subject: [PATCH 65/71] fix: plc_read_knottype frees its own copy, counts the
 factors and knows how many knots there are

---
 src/plcTopology.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index b3d1007..263f17e 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1723,15 +1723,23 @@ void plc_write_knottype(FILE *out, plc_knottype kt)
 plc_knottype *plc_read_knottype(const char *kt)
 /* Reads the knot type as a human would write it: 3_1#5_2, for example. Returns NULL if it can't parse the knot_type. */
 {
-  char *primecomp;
+  char *primecomp,*rest;
   plc_knottype *working_kt;
   int pc = 0;
   char *working_copy = calloc(strlen(kt)+10,sizeof(char));
   strcpy(working_copy,kt);
-  int maxind[19] = {0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
+  int maxind[20] = {1, 0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
 
   working_kt = calloc(1,sizeof(plc_knottype));
-  while((primecomp = strtok_r(working_copy,"#",&working_copy)) != NULL) {
+  for(primecomp = strtok_r(working_copy,"#",&rest);primecomp != NULL;primecomp = strtok_r(NULL,"#",&rest)) {
+
+    if (pc == MAXPRIMEFACTORS) {
+      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
+	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
+      free(working_copy);
+      free(working_kt);
+      return NULL;
+    }
 
     if (sscanf(primecomp,"%d_%d",&(working_kt->cr[pc]),&(working_kt->ind[pc])) != 2) {
       fprintf(stderr,"plc_read_knottype: Could not parse prime component %s in knot type %s.\n",primecomp,kt);
@@ -1747,8 +1755,8 @@ plc_knottype *plc_read_knottype(const char *kt)
       return NULL;
     }
 
-    if (working_kt->ind[pc] < 0 || working_kt->ind[pc] > maxind[working_kt->cr[pc]]) {
-      fprintf(stderr,"plc_read_knottype: Prime component type %s has index <0 or >%d (the number of %d crossing prime knots).\n",primecomp,
+    if (working_kt->ind[pc] < 1 || working_kt->ind[pc] > maxind[working_kt->cr[pc]]) {
+      fprintf(stderr,"plc_read_knottype: Prime component type %s has index <1 or >%d (the number of %d crossing prime knots).\n",primecomp,
 	      maxind[working_kt->cr[pc]],working_kt->cr[pc]);
       free(working_copy);
       free(working_kt);
@@ -1757,17 +1765,17 @@ plc_knottype *plc_read_knottype(const char *kt)
 
     pc++;
 
-    if (pc == MAXPRIMEFACTORS) {
-      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
-	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
-      free(working_copy);
-      free(working_kt);
-
-    }
-    
   }
 
   free(working_copy);
+
+  if (pc == 0) {
+    fprintf(stderr,"plc_read_knottype: Knot type is empty.\n");
+    free(working_kt);
+    return NULL;
+  }
+
+  working_kt->nf = pc;
   return working_kt;
 }
 
-- 
2.43.0


From b613ace7275a7b60ce7af53f2c23eb46688a5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:38 +0000
Subject: [PATCH 66/71] fix: pd_code_from_plCurve retries with another
 projection

---
 src/plcTopology.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 263f17e..b7878ee 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1339,7 +1339,8 @@ pd_code_t *pd_code_from_plCurve(gsl_rng *rng, plCurve *L) {
 
   for(attempt_number=0;attempt_number < 9 && !pd_created;attempt_number++) {
 
-    /* Step 1. Rotate the whole thing randomly. */
+    /* Step 1. Rotate the whole thing randomly (this projection is used if the
+       first attempt, along the original z-axis, fails). */
 
     if (!pd_code_from_plCurve_debug) { new_axis = plc_random_vect(); }
 
@@ -1356,7 +1357,7 @@ pd_code_t *pd_code_from_plCurve(gsl_rng *rng, plCurve *L) {
 
     /* Step 2. Perturb to make it crossing-clean. */
 
-    plCurve *genericL = make_zprojection_generic(rng,L);
+    plCurve *genericL = make_zprojection_generic(rng,attempt_number == 0 ? L : workingL);
 
     if (pd_code_from_plCurve_verbose) {
 
-- 
2.43.0


From 84fbd10652c6bf82a9b33b6505fd319248e90f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:28 +0000
Subject: [PATCH 67/71] fix: pd_build_twist_knot builds a twist knot for an
 even number of twists

---
 src/pdcode_testcodes.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pdcode_testcodes.c b/src/pdcode_testcodes.c
index 7b22e88..e2015c0 100644
--- a/src/pdcode_testcodes.c
+++ b/src/pdcode_testcodes.c
@@ -79,13 +79,15 @@ pd_code_t *pd_build_twist_knot(pd_idx_t n)
     
   pd_regenerate(pd);
 
-  /* Now we have an edge list and can assign crossing signs. It turns
-     out that this is trivial as all the crossings have positive sign. */
+  /* Now we have an edge list and can assign crossing signs. The twist
+     crossings are all positive. The two clasp crossings (0 and 1) are
+     positive too when n is odd, but negative when n is even: otherwise
+     the diagram isn't alternating, and one of the twists comes undone. */
 
   pd_idx_t k;
   for(k=0;k<pd->ncross;k++) { 
 
-    pd->cross[k].sign = PD_POS_ORIENTATION;
+    pd->cross[k].sign = (n%2 == 0 && k < 2) ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION;
 
   }
 
-- 
2.43.0


From 26aed23e237f03be290dc3f739307046db5e9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:55 +0000
Subject: [PATCH 68/71] fix: tangle_contents_worker follows the strand leaving
 a crossing with a loop

---
 src/pd_tangles.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 992bceb..abc05d0 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -1015,11 +1015,16 @@ void tangle_contents_worker(pd_code_t *pd,pd_tangle_t *t,
   transverse_edge[0] = pd->cross[cr].edge[(pd->edge[edge].headpos+1)%4];
   transverse_edge[1] = pd->cross[cr].edge[(pd->edge[edge].headpos+3)%4];
 
-  if (pd->edge[transverse_edge[0]].tail == cr) {
+  /* (We have to check tail positions, too: a loop edge has its tail at cr
+     even if it is the one arriving on the transverse strand.) */
+
+  if (pd->edge[transverse_edge[0]].tail == cr &&
+      pd->edge[transverse_edge[0]].tailpos == (pd->edge[edge].headpos+1)%4) {
 
     tangle_contents_worker(pd,t,transverse_edge[0],depth+1);
 
-  } else if (pd->edge[transverse_edge[1]].tail == cr) {
+  } else if (pd->edge[transverse_edge[1]].tail == cr &&
+	     pd->edge[transverse_edge[1]].tailpos == (pd->edge[edge].headpos+3)%4) {
 
     tangle_contents_worker(pd,t,transverse_edge[1],depth+1);
 
-- 
2.43.0


From 8e4f82d1ad075a6621c3a702f5a727f0594fff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:33 +0000
Subject: [PATCH 69/71] fix: pd_tangle_slide makes room for the edges a
 component gains

---
 src/pd_tangles.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index abc05d0..b50dc9c 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3451,6 +3451,13 @@ end_anchor   | 	    Tangle     	 |
 
       pd_working->comp[i].edge[0] = pd_working->comp[i].edge[j];
 
+      /* The component may have gained edges: make room for all of them
+         (and for the failsafe below). */
+
+      pd_working->comp[i].edge = realloc(pd_working->comp[i].edge,
+					 (pd_working->MAXEDGES+2)*sizeof(pd_idx_t));
+      assert(pd_working->comp[i].edge != NULL);
+
       pd_idx_t next_edge;
       pd_or_t  next_or;
 
-- 
2.43.0


From 6577fb1ad37b0a85ec66180e4c5efcd39c90e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:54 +0000
Subject: [PATCH 70/71] fix: pd_tangle_slide sets the sign of the new crossing
 when it adds only one

---
 src/pd_tangles.c | 66 ++++++++++++------------------------------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index b50dc9c..36c8900 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3157,67 +3157,33 @@ end_anchor   | 	    Tangle     	 |
       pd_working->cross[pd->ncross+i-1].edge[pd_working->edge[new_edge].tailpos]
 	= new_edge;
 
-      /* Probably the hardest part here is to figure out the correct sign for
-	 the crossing. We know whether the new strand is supposed to go over or
-	 under, so the quickest way to do this is "guess and check". */
-
-      pd_working->cross[pd->ncross+i-1].sign = PD_POS_ORIENTATION;
-
-      pd_idx_t in_overstrand, out_overstrand;
-      pd_overstrand(pd_working,pd->ncross+i-1,&in_overstrand,&out_overstrand);
-
-      /* We now check and see if we got it wrong-- we were supposed to go under and
-	 went over, or we were supposed to go over and went under. */
-
-      if (!overstrand_goes_OVER &&
-	  (in_overstrand == new_edge || out_overstrand == new_edge)) {
-
-	pd_working->cross[pd->ncross+i-1].sign = PD_NEG_ORIENTATION;
-
-      }
-
-      if (overstrand_goes_OVER &&
-	  (in_overstrand != new_edge && out_overstrand != new_edge)) {
-
-	pd_working->cross[pd->ncross+i-1].sign = PD_NEG_ORIENTATION;
-
-      }
-
-      /* There's a sticky edge case here. If we're at the end of the
-	 new crossings, then we've already got another edge sewed to
-	 the end of the crossing at pd->ncross+i, and we can go ahead
-	 and assign a sign to the crossing now instead of waiting for
-	 next iteration of the loop. In fact, we have to, since we
-	 aren't going to get another loop iteration! */
-
-      if (i == ncomplementary_edges-1) {
-
-	 pd_working->cross[pd->ncross+i].sign = PD_POS_ORIENTATION;
+      pd_working->nedges++;
 
-	 pd_idx_t in_overstrand, out_overstrand;
-	 pd_overstrand(pd_working,pd->ncross+i,&in_overstrand,&out_overstrand);
+    }
 
-	 /* We now check and see if we got it wrong-- we were supposed to go under and
-	    went over, or we were supposed to go over and went under. */
+    /* Probably the hardest part here is to figure out the correct sign for
+       the new crossings. We know whether the new strand is supposed to go over
+       or under, so the quickest way to do this is "guess and check". We do this
+       once all of the edges are in place (and even if there's only one new
+       crossing, so that there were no new edges to add). */
 
-	 if (!overstrand_goes_OVER &&
-	     (in_overstrand == new_edge || out_overstrand == new_edge)) {
+    for(i=0;i<ncomplementary_edges;i++) {
 
-	   pd_working->cross[pd->ncross+i].sign = PD_NEG_ORIENTATION;
+      pd_crossing_t *new_cross = &(pd_working->cross[pd->ncross+i]);
+      pd_idx_t in_overstrand, out_overstrand;
 
-	 }
+      new_cross->sign = PD_POS_ORIENTATION;
+      pd_overstrand(pd_working,pd->ncross+i,&in_overstrand,&out_overstrand);
 
-	 if (overstrand_goes_OVER &&
-	     (in_overstrand != new_edge && out_overstrand != new_edge)) {
+      /* We now check and see if we got it wrong-- we were supposed to go under and
+	 went over, or we were supposed to go over and went under. */
 
-	   pd_working->cross[pd->ncross+i].sign = PD_NEG_ORIENTATION;
+      if (overstrand_goes_OVER != (in_overstrand == new_cross->edge[enter_pos])) {
 
-	 }
+	new_cross->sign = PD_NEG_ORIENTATION;
 
       }
 
-      pd_working->nedges++;
-
     }
 
   }
-- 
2.43.0


From 72e8cfa10ffb0a04d01ec4b853942bce962ca901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:56 +0000
Subject: [PATCH 71/71] fix: spiral and teeth triangulations of a triangle do
 not write to an empty chord table

---
 src/plcToricSymplecticTriangulation.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 8ea9482..250bc28 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -47,7 +47,9 @@ tsmcmc_triangulation_t tsmcmc_spiral_triangulation(int nedges)
   int i,cd;
   for(i=0;i<nedges;i++) { vert_active[i] = true; }
 
-  for(cd=0,chordsys[cd].vt[0] = 0,i=0;cd < nedges-3;cd++) { 
+  if (nedges > 3) { chordsys[0].vt[0] = 0; } /* A triangle has no chords at all. */
+
+  for(cd=0,i=0;cd < nedges-3;cd++) { 
 
     /* Start assuming that chordsys[cd].vt[0] is set, and equal to i. */
     /* Scan forward until the next active vertex */
@@ -166,7 +168,9 @@ tsmcmc_triangulation_t tsmcmc_teeth_triangulation(int nedges)
   assert(chordsys != NULL);
   
   int chords_used;
-  chordsys[0].vt[0] = nedges-1; chordsys[0].vt[1] = 1; /* We start by skipping vertex 0. */
+  if (nedges > 3) { /* A triangle has no chords at all. */
+    chordsys[0].vt[0] = nedges-1; chordsys[0].vt[1] = 1; /* We start by skipping vertex 0. */
+  }
   chords_used = 1;
 
   for(;chords_used < nedges-3;chords_used++) { 
-- 
2.43.0

