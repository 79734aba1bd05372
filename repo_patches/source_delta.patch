From 565c68a478de0863c6f08558de1896e234f0a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:41 +0000
Subject: [PATCH 001/139] fix: pd_comps_ok reads past the edge buffer when a
 component refers to an edge which does not exist

---
 src/pdcode.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 354efaf..46a968a 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2384,6 +2384,13 @@ bool pd_comps_ok(pd_code_t *pd)
       e_idx = pd->comp[comp].edge[edge];
       n_idx = pd->comp[comp].edge[next_edge];
 
+      if (e_idx >= pd->nedges || n_idx >= pd->nedges) {
+
+	return pd_error(SRCLOC,"%COMP contains an edge number which is not < number of edges %d in pd %PD",
+			pd,comp,pd->nedges);
+
+      }
+
       if (pd->edge[e_idx].head != pd->edge[n_idx].tail ||
 	  (4 + pd->edge[e_idx].headpos - pd->edge[n_idx].tailpos) % 4 != 2) {
 
-- 
2.43.0


From cc7ec8e7ae9767b5789e87e822d18c938a2ef23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:43 +0000
Subject: [PATCH 002/139] fix: pd_faces_ok accepts a code which lists one face
 twice, and divides by zero on an empty face

---
 src/pdcode.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 46a968a..0dea7bd 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2540,6 +2540,12 @@ bool pd_faces_ok(pd_code_t *pd)
 
     pd_face_t *f = &(pd->face[face]);
 
+    if (f->nedges == 0) {
+
+      return pd_error(SRCLOC,"%FACE has no edges in pd %PD",pd,face);
+
+    }
+
     for(edge=0,nxt_edge= 1 % f->nedges;
 	edge<f->nedges;
 	edge++,nxt_edge = (edge+1) % f->nedges) {
@@ -2607,6 +2613,31 @@ bool pd_faces_ok(pd_code_t *pd)
 
   }
 
+  /* Check that no side of an edge is on more than one face */
+
+  int *side_seen = calloc(2*pd->nedges,sizeof(int));
+  assert(side_seen != NULL);
+
+  for(face=0;face<pd->nfaces;face++) {
+
+    for(edge=0;edge<pd->face[face].nedges;edge++) {
+
+      side_seen[2*pd->face[face].edge[edge] + (pd->face[face].orient[edge] == PD_POS_ORIENTATION ? 0 : 1)]++;
+
+    }
+
+  }
+
+  bool sides_ok = true;
+  for(edge=0;edge<2*pd->nedges;edge++) { if (side_seen[edge] > 1) { sides_ok = false; } }
+  free(side_seen);
+
+  if (!sides_ok) {
+
+    return pd_error(SRCLOC,"some side of an edge is on more than one face in pd %PD",pd);
+
+  }
+
   /* Check sort order according to pd_face_cmp */
 
   for(face=1;face<pd->nfaces;face++) {
-- 
2.43.0


From 25a271951d13770eaac536aa0e30037871523a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:30 +0000
Subject: [PATCH 003/139] fix: pd_read overflows its hash buffer on a hash of
 PD_HASHSIZE characters

---
 src/pdcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 0dea7bd..807937e 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3187,7 +3187,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
      want the sscanf pattern to reflect PD_HASHSIZE (which might change) */
 
   char hash_template[1024];
-  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE);
+  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE-1); /* leave room for the terminating 0 */
 
   int sscanf_result = sscanf(pd_line,hash_template,hash,&input_temp);
 
-- 
2.43.0


From bf0a316998487d2d349746adfdfa6abc2aa700a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:30 +0000
Subject: [PATCH 004/139] fix: pd_read exits the program on a truncated
 0-crossing code

---
 src/pdcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 807937e..6073348 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3321,7 +3321,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	pd_error(SRCLOC,
 		 "Reading 0 crossing pd code, we found eof before a component tag. ",NULL);
 	pd_err_set(err, PD_BAD_FORMAT);
-	exit(1);
+	return NULL;
 
       }
     }
-- 
2.43.0


From b7d1a4c3c32b890b6889f45cbd05ff030418b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:30 +0000
Subject: [PATCH 005/139] fix: pd_read_err does not set the error code when the
 component line is missing

---
 src/pdcode.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 6073348..dc7c61e 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3461,6 +3461,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	     "nc <ncomps>\n"
 	     "where <ncomps> is a positive integer\n"
 	     "but this one doesn't",pd);
+    pd_err_set(err, PD_BAD_FORMAT);
     pd_code_free(&pd); return NULL;
 
   }
-- 
2.43.0


From 685f52f0a4c55ddb843593f670d6e34dca73b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:30 +0000
Subject: [PATCH 006/139] fix: pd_read allocates a component before checking
 its (possibly absurd) size

---
 src/pdcode.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index dc7c61e..f95a14e 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3500,11 +3500,6 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     pd->comp[comp].nedges = (pd_idx_t)(input_temp);
 
-    /* We haven't allocated space in the component. */
-
-    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
-    assert(pd->comp[comp].edge != NULL);
-
     if (pd->comp[comp].nedges > pd->MAXEDGES) {
 
       pd_error(SRCLOC,
@@ -3517,6 +3512,11 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
+    /* We haven't allocated space in the component. */
+
+    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
+    assert(pd->comp[comp].edge != NULL);
+
     for(edge=0;edge<pd->comp[comp].nedges;edge++) {
 
       if(fscanf(infile," %lu ",&input_temp) != 1) {
-- 
2.43.0


From 913086a0572b9c4f10e56dfa9913c06d28d616c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:30 +0000
Subject: [PATCH 007/139] fix: pd_read indexes past its buffers when an edge
 refers to a crossing which does not exist

---
 src/pdcode.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index f95a14e..97f5907 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3664,6 +3664,21 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   }
 
+  /* The edge records index the crossing buffers below, so they need to be legal. */
+
+  for(edge=0;edge<pd->nedges;edge++) {
+
+    if (pd->edge[edge].head >= pd->ncross || pd->edge[edge].tail >= pd->ncross) {
+
+      pd_error(SRCLOC,"%EDGE of pdcode file refers to an illegal crossing\n",pd,edge);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
+
+  }
+
   pd_regenerate_crossings(pd); /* If the crossings were not in canonical order, fix it. */
 
   pd_err_check(pd_ok(pd), err, PD_NOT_OK, pd);
-- 
2.43.0


From e0f2d3e67fd007e8cd6c9650bf5ea70de09c79d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:30 +0000
Subject: [PATCH 008/139] fix: pd_read aborts on a code which does not pass
 pd_ok, instead of returning NULL

---
 src/pdcode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 97f5907..3de8aee 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3688,7 +3688,10 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
 }
 pd_code_t *pd_read(FILE *infile) {
-    return pd_read_err(infile, NULL);
+    int err = PD_NO_ERROR;
+    pd_code_t *pd = pd_read_err(infile, &err);
+    if (err != PD_NO_ERROR && pd != NULL) { pd_code_free(&pd); }
+    return pd;
 }
 
 pd_code_t *pd_read_KnotTheory(FILE *infile)
-- 
2.43.0


From 02764a70bd7e9bbaa0be82173c0c6a31b4af85d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:04 +0000
Subject: [PATCH 009/139] fix: pd_unpack turns unset crossing signs into
 negative ones

---
 src/pd_pack.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index d1236c0..03d31cd 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -423,6 +423,17 @@ pd_code_t *pd_unpack(unsigned int *bitform)
      and it should be ok to call pd_regenerate. */
 
   pd_regenerate(pd);
+
+  /* If the crossings were unsigned, they must stay unsigned. (We can't
+     do this before regenerating: pd_regenerate would discard the edge
+     orientations that we just unpacked.) */
+
+  if (crtype == UNSIGNED_CROSSINGS) {
+
+    for(k=0;k<pd->ncross;k++) { pd->cross[k].sign = PD_UNSET_ORIENTATION; }
+
+  }
+
   assert(pd_ok(pd));
   
   return pd;
-- 
2.43.0


From 0a9824bbf6c77df2345e4cd4fb0fae89562a307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:06 +0000
Subject: [PATCH 010/139] fix: constraint runs on different components are
 merged into one

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 69ff4f1..8461a5b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -506,6 +506,7 @@ static inline void overrun_check(plc_constraint *cst) {
   }
   /* Now combine adjacent constraints if possible */
   while (cst->next != NULL &&
+         cst->next->cmp == cst->cmp &&
          cst->next->vert == cst->vert+cst->num_verts &&
          cst->next->kind == cst->kind &&
          cst->kind != fixed &&
-- 
2.43.0


From 843065fcd7011f1a611bf5dea8b5225726572ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:39 +0000
Subject: [PATCH 011/139] fix: plc_read overflows its constraint buffer (wrong
 size computed) when a file has many constraints

---
 src/plCurve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8461a5b..c97ceeb 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1309,10 +1309,13 @@ void plc_fix_wrap(plCurve * const L) {
       return NULL;
     }
     if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) % 10)); /* Allocate by 10s */
+      size_t old_len = cst_list_len;
+      cst_list_len = (size_t)(10*((cst_num+11) / 10)); /* Allocate by 10s */
       assert(cst_list->next == NULL);
       cst_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
       assert(cst_list != NULL);
+      memset(&cst_list[old_len],0,
+             (cst_list_len-old_len)*sizeof(plc_constraint));
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
-- 
2.43.0


From 8211703cee8e1c4aaf39d811a4b10c39786f0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:39 +0000
Subject: [PATCH 012/139] fix: plc_read reads past the end of a comment which
 ends with a constraint

---
 src/plCurve.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index c97ceeb..d9d751c 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1176,7 +1176,7 @@ void plc_fix_wrap(plCurve * const L) {
   int ds; /* Doubles scanned */
   /*@temp@*/ char *place;
   char *space = " ";
-  size_t parsed;
+  size_t parsed, comment_len;
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
@@ -1279,6 +1279,7 @@ void plc_fix_wrap(plCurve * const L) {
   while ((place = strcasestr(comment,"Constraint ")) != NULL) {
     /* Move the word "Constraint to the beginning of the string */
     memmove(comment,place,strlen(place)+1);
+    comment_len = strlen(comment);
     /* Now start tokenizing */
     place = strtok(comment, space); /* "Constraint" */
 #define place_not_null \
@@ -1292,11 +1293,15 @@ void plc_fix_wrap(plCurve * const L) {
         "plc_read: Couldn't parse constraint line.\n"); \
       return NULL; \
     }
+/* Position of the text after this word (or of the end of the comment). */
+#define step_over_place \
+    parsed = (size_t)(place - comment) + strlen(place) + 1; \
+    if (parsed > comment_len) { parsed = comment_len; }
     place_not_null;
-    parsed = strlen(place)+1;
+    step_over_place;
     place = strtok(NULL, space); /* The constraint number */
     place_not_null;
-    parsed += strlen(place)+1;
+    step_over_place;
     if (sscanf(place,"%d",&cst_num) != 1 ||
         cst_num < 1) {
       plc_free(L);
@@ -1319,7 +1324,7 @@ void plc_fix_wrap(plCurve * const L) {
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
-    parsed += strlen(place)+1;
+    step_over_place;
     if (strcasestr(place,"Fixed") != NULL) {
       cst_list[cst_num].kind = fixed;
       if (sscanf(&comment[parsed],"%lf %lf %lf",
@@ -1339,7 +1344,7 @@ void plc_fix_wrap(plCurve * const L) {
       for (i=0; i < 3; i++) {
         place = strtok(NULL, space); /* Step over the numbers */
         place_not_null;
-        parsed += strlen(place)+1;
+        step_over_place;
       }
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else if (strcasestr(place,"Line") != NULL) {
@@ -1363,7 +1368,7 @@ void plc_fix_wrap(plCurve * const L) {
       for (i=0; i < 6; i++) {
         place = strtok(NULL, space); /* Step over the numbers */
         place_not_null;
-        parsed += strlen(place)+1;
+        step_over_place;
       }
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else if (strcasestr(place,"Plane") != NULL) {
@@ -1387,7 +1392,7 @@ void plc_fix_wrap(plCurve * const L) {
       for (i=0; i < 4; i++) {
         place = strtok(NULL, space); /* Step over the numbers */
         place_not_null;
-        parsed += strlen(place)+1;
+        step_over_place;
       }
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else {
-- 
2.43.0


From 6d45794a12a308702f724e7fb718de9af43fdb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:39 +0000
Subject: [PATCH 013/139] fix: plc_read accepts files which do not start with
 the VECT keyword

---
 src/plCurve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index d9d751c..a99c68c 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1176,6 +1176,7 @@ void plc_fix_wrap(plCurve * const L) {
   int ds; /* Doubles scanned */
   /*@temp@*/ char *place;
   char *space = " ";
+  char keyword[5];
   size_t parsed, comment_len;
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
@@ -1187,7 +1188,7 @@ void plc_fix_wrap(plCurve * const L) {
   *error_num = 0;
 
   /* First, we check for the 'VECT' keyword. */
-  if (fscanf(file," VECT ") == EOF) {
+  if (fscanf(file," %4s",keyword) != 1 || strcmp(keyword,"VECT") != 0) {
     *error_num = PLC_E_NO_VECT;
     (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't find VECT keyword.\n");
-- 
2.43.0


From 241c18d25268ade261e5ca969b0203abc6653856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:39 +0000
Subject: [PATCH 014/139] fix: plc_read aborts on components with no vertices
 or an illegal number of colors

---
 src/plCurve.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index a99c68c..4bda68d 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -42,6 +42,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 /* Utility routines */
@@ -1234,6 +1235,15 @@ void plc_fix_wrap(plCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (nvarray[i] == 0 || nvarray[i] == INT_MIN) {
+      *error_num = PLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Component %d has an illegal number of vertices.\n",i);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
     /* A negative number of vertices indicates a CLOSED component. */
     open[i] = (nvarray[i] >= 0);
     nvarray[i] = abs(nvarray[i]);
@@ -1253,6 +1263,16 @@ void plc_fix_wrap(plCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (ccarray[i] < 0 || ccarray[i] > nvarray[i]) {
+      *error_num = PLC_E_BAD_CC;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Component %d has %d colors and %d vertices.\n",
+          i,ccarray[i],nvarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
-- 
2.43.0


From e9487389c92e97cf7f07d6bdb37e78207397cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:39 +0000
Subject: [PATCH 015/139] fix: plc_read indexes past its constraint buffer when
 a vertex refers to a constraint which is not defined

---
 src/plCurve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 4bda68d..4a8a0a5 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1451,7 +1451,9 @@ void plc_fix_wrap(plCurve * const L) {
         memmove(comment,place,strlen(place)+1);
         place = strtok(comment,space); /* Cst: */
         place_not_null;
-        if (sscanf(&comment[5],"%d",&cst_num) != 1) {
+        if (sscanf(&comment[5],"%d",&cst_num) != 1 ||
+            cst_num < 0 || cst_num >= (int)cst_list_len ||
+            (cst_num > 0 && cst_list[cst_num].kind == unconstrained)) {
           plc_free(L);
           assert(cst_list->next == NULL);
           free(cst_list);
-- 
2.43.0


From 2cf9309770f33b6b593b3f12fb2d960919183561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:39 +0000
Subject: [PATCH 016/139] fix: plc_read aborts when consecutive vertices share
 a fixed constraint

---
 src/plCurve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 4a8a0a5..510e7d7 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1465,7 +1465,9 @@ void plc_fix_wrap(plCurve * const L) {
         }
       }
       free(comment);
-      if (cst_num != prev_cst_num) {
+      /* A fixed constraint never extends over more than one vertex. */
+      if (cst_num != prev_cst_num ||
+          (cst_num != 0 && cst_list[cst_num].kind == fixed)) {
         if (prev_cst_num != 0) {
           plc_set_constraint(L, i, prev_cst_vert, j - prev_cst_vert,
               cst_list[prev_cst_num].kind, cst_list[prev_cst_num].vect);
-- 
2.43.0


From d79e0483202baadc50d62e39e8d8a0a5f1d5f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:39 +0000
Subject: [PATCH 017/139] fix: plc_write truncates the constraint number on
 long vertex lines

---
 src/plCurve.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 510e7d7..aaf7551 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -801,8 +801,8 @@ void plc_write(FILE *outfile, plCurve * const L) {
   int i,j;                  /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
-  char outstr2[80] = "";    /* Again for wrapping */
+  char outstr[128] = "";    /* So we can wrap the vertex lines */
+  char outstr2[80] = "";    /* Again for wrapping (three %.16g numbers fit) */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
   plc_constraint *cst;  /* Current constraint */
@@ -893,7 +893,7 @@ void plc_write(FILE *outfile, plCurve * const L) {
   for (i=0; i<L->nc; i++) {
     fprintf(outfile,"# Component %d\n",i);
     for (j=0; j<L->cp[i].nv; j++) {
-      (void)snprintf(outstr,sizeof(outstr),"%.16g %.16g %.16g",
+      (void)snprintf(outstr,sizeof(outstr2),"%.16g %.16g %.16g",
           plc_M_clist(L->cp[i].vt[j]));
       if (cst_nums[i][j] != 0) {
         strcpy(outstr2,outstr);
-- 
2.43.0


From 046cdc9b4e62feccc3fe94dc83fb52deb7496487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:06 +0000
Subject: [PATCH 018/139] fix: plc_read prints a freed string in two of its
 error messages

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index aaf7551..277ff48 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1328,10 +1328,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_NUM;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
+      free(comment);
       return NULL;
     }
     if (cst_num+1 > (int)cst_list_len) {
@@ -1420,10 +1420,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_KIND;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Unrecognized constraint kind '%s'.\n",place);
+      free(comment);
       return NULL;
     }
   }
-- 
2.43.0


From 8331712b635ad849c7df9d31f2e2bcdbba97faff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:55 +0000
Subject: [PATCH 019/139] fix: adding or dropping a component leaves
 constraints (and symmetries) on the wrong components

---
 src/plCurve.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 277ff48..b4357e1 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2064,6 +2064,7 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
                       const plc_vector * const vt,
            /*@null@*/ const plc_color * const clr) {
   plc_strand *cp;
+  plc_constraint *cst;
 
   assert(L != NULL);
   assert(nv >= 1);
@@ -2073,6 +2074,8 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
   assert(add_as >= 0);
   assert(add_as <= L->nc);
 
+  plc_symmetry_group_free(&(L->G)); /* Must be done BEFORE we change nc */
+
   L->nc++;
   /*@-compdestroy@*/
   L->cp = realloc(L->cp,L->nc*sizeof(plc_strand));
@@ -2082,6 +2085,10 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
     memmove(&(L->cp[add_as+1]),&(L->cp[add_as]),
         (L->nc-add_as-1)*sizeof(plc_strand));
   }
+  /* The constraints on the components which moved up move with them. */
+  for (cst = L->cst; cst != NULL; cst = cst->next) {
+    if (cst->cmp >= add_as) { cst->cmp++; }
+  }
   cp = &L->cp[add_as];
   cp->open = open;
 
@@ -2109,12 +2116,27 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
 
 void plc_drop_component(plCurve *L, const int cmp) {
   int cnt;
+  plc_constraint **pcst, *cst;
 
   assert(L != NULL);
   assert(cmp >= 0);
   assert(cmp < L->nc);
   assert(L->nc > 0);
 
+  plc_symmetry_group_free(&(L->G)); /* Must be done BEFORE we change nc */
+
+  /* Drop the constraints on this component, move those on later ones. */
+  for (pcst = &(L->cst); *pcst != NULL; ) {
+    if ((*pcst)->cmp == cmp) {
+      cst = *pcst;
+      *pcst = cst->next;
+      free(cst);
+    } else {
+      if ((*pcst)->cmp > cmp) { (*pcst)->cmp--; }
+      pcst = &((*pcst)->next);
+    }
+  }
+
   L->nc--;
   L->cp[cmp].vt--;
   free(L->cp[cmp].vt);
-- 
2.43.0


From e416979852e9a8a85ab274619265a8861b756fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:55 +0000
Subject: [PATCH 020/139] fix: plc_double_verts writes past the color buffer of
 uncolored components and loses the last color

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index b4357e1..8d3e1c4 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2436,9 +2436,9 @@ plCurve *plc_double_verts(plCurve *L)
 
       newL->cp[cmp].clr[0] = L->cp[cmp].clr[0];
 
-    } else {
+    } else if (newL->cp[cmp].cc > 1) {
 
-      for(vt=0;vt<L->cp[cmp].nv-1;vt++) {
+      for(vt=0;vt<L->cp[cmp].nv;vt++) {
 
 	newL->cp[cmp].clr[2*vt+1] = newL->cp[cmp].clr[2*vt] = L->cp[cmp].clr[vt];
 	
-- 
2.43.0


From 96249f53aa78e4294070eda13995146c77b4b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:19 +0000
Subject: [PATCH 021/139] fix: plc_delete_arc leaves stale colors and
 symmetries, and runs off the vertex buffer for arcs beyond the ends

---
 src/plCurve.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8d3e1c4..9dc3fa4 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2950,6 +2950,26 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
   }
 
     
+/* Make the per-vertex colors of component cp of newL (if any) those of the nv vertices
+   of component cp of L starting with vertex first. Helper for plc_delete_arc. */
+
+static void keep_colors(plCurve *newL,int newcp,const plCurve *L,int cp,int first,int nv)
+
+{
+  int i;
+
+  if (L->cp[cp].cc <= 1) { return; } /* No color, or one for the entire component. */
+
+  for(i=0;i<nv;i++) {
+
+    newL->cp[newcp].clr[i] = L->cp[cp].clr[((first + i) % L->cp[cp].nv) % L->cp[cp].cc];
+
+  }
+
+  newL->cp[newcp].cc = nv;
+
+}
+
   plCurve *plc_delete_arc(plCurve *L,int cp,int vt1, int vt2)
 
   /* Delete a subarc from a component of a plCurve between vt1 and vt2    */
@@ -2966,10 +2986,11 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
     newL = plc_copy(L);
     plc_remove_all_constraints(newL);  
+    plc_symmetry_group_free(&(newL->G)); /* The vertices are renumbered. */
 
     if (L->cp[cp].open) { /* We're going to split or truncate open component */
 
-      if (vt1 > vt2) { /* This is a null case, so do nothing */
+      if (vt1 > vt2 || vt2 < 0 || vt1 >= L->cp[cp].nv) { /* This is a null case, so do nothing */
 
 	return newL;
 
@@ -2993,6 +3014,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 	  }
 	  
 	  newL->cp[cp].nv = L->cp[cp].nv - (vt2+1);
+	  keep_colors(newL,cp,L,cp,vt2+1,newL->cp[cp].nv);
 	  plc_fix_wrap(newL);
 
 	  return newL;
@@ -3002,14 +3024,20 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
       } else if (vt2 >= L->cp[cp].nv-1) { /* Cut off the end of the component. */
 
 	newL->cp[cp].nv = vt1;
+	keep_colors(newL,cp,L,cp,0,vt1);
 	plc_fix_wrap(newL);
 
 	return newL;
 
       } else { /* vt1 > 0, vt2 < L->cp[cp].nv-1, and L->cp[cp].open == true */
 
-	plc_add_component(newL,cp+1,L->cp[cp].nv-(vt2+1),true,0,&(L->cp[cp].vt[vt2+1]),NULL);
+	int tail_nv = L->cp[cp].nv-(vt2+1);
+	int tail_cc = (L->cp[cp].cc > 1) ? tail_nv : L->cp[cp].cc;
+
+	plc_add_component(newL,cp+1,tail_nv,true,tail_cc,&(L->cp[cp].vt[vt2+1]),L->cp[cp].clr);
+	keep_colors(newL,cp+1,L,cp,vt2+1,tail_nv);
 	newL->cp[cp].nv = vt1;
+	keep_colors(newL,cp,L,cp,0,vt1);
 	plc_fix_wrap(newL);
 
 	return newL;
@@ -3035,6 +3063,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 	  newL->cp[cp].vt[vt] = L->cp[cp].vt[(vt + vt2 + 1) % L->cp[cp].nv];
 
 	}
+	keep_colors(newL,cp,L,cp,vt2+1,newL->cp[cp].nv);
 	newL->cp[cp].open = true;
 	plc_fix_wrap(newL);
 
@@ -3051,6 +3080,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 	  newL->cp[cp].vt[vt] = L->cp[cp].vt[(vt + vt2 + 1) % L->cp[cp].nv];
 
 	}
+	keep_colors(newL,cp,L,cp,vt2+1,newL->cp[cp].nv);
 	newL->cp[cp].open = true;
 	plc_fix_wrap(newL);
 
-- 
2.43.0


From 6b3fc3cbac2cea136d8abe73e8deaeed7b787979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:19 +0000
Subject: [PATCH 022/139] fix: plc_whitten damages constraints (wrong inverse
 permutation, wrong vertices, list out of order)

---
 src/plwhitten.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index 3f9b729..559aaf0 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -68,7 +68,7 @@ int  perm(int permsize,int *perm,int ind)
 {
   int i;
 
-  for(i=0;i<permsize;i++) {
+  for(i=0;i<permsize-1;i++) {
     
     if (perm[i] == ind) { return perm[i+1]; }
 
@@ -77,13 +77,13 @@ int  perm(int permsize,int *perm,int ind)
   return ind;
 }
 
-int  iperm(int permsize,int *perm,int ind)
+int  iperm(int nc,int permsize,int *thisperm,int ind)
 {
   int i;
 
-  for(i=permsize;i>0;i--) {
-    
-    if (perm[i] == ind) { return perm[i-1]; }
+  for(i=0;i<nc;i++) {
+
+    if (perm(permsize,thisperm,i) == ind) { return i; }
 
   }
 
@@ -126,7 +126,7 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
   for(tc=L->cst;tc != NULL;tc=tc->next) {
 
-    tc->cmp = iperm(2*L->nc,thisperm,tc->cmp);
+    tc->cmp = iperm(L->nc,2*L->nc,thisperm,tc->cmp);
 
   }
 
@@ -214,7 +214,7 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
       for(tc=L->cst;tc != NULL;tc=tc->next) {
 
-	tc->vert = (nv-1) - (tc->vert + tc->num_verts); 
+	if (tc->cmp == cp) { tc->vert = nv - (tc->vert + tc->num_verts); }
 
       }
 
@@ -222,6 +222,27 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
   }
 
+  /* The list of constraints is kept in order of component and vertex. */
+
+  plc_constraint *sorted = NULL,**place;
+
+  while (L->cst != NULL) {
+
+    tc = L->cst;
+    L->cst = tc->next;
+
+    for(place = &sorted;
+	*place != NULL && ((*place)->cmp < tc->cmp ||
+			   ((*place)->cmp == tc->cmp && (*place)->vert < tc->vert));
+	place = &((*place)->next));
+
+    tc->next = *place;
+    *place = tc;
+
+  }
+
+  L->cst = sorted;
+
   plc_fix_wrap(L);
 
   /* We have now applied everything. */
-- 
2.43.0


From 1fb5edb0510c176dc0a2ee33110b5311e3d76a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:57 +0000
Subject: [PATCH 023/139] fix: plc_s counts an extra edge for each open
 component before the given one

---
 src/plCurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 9dc3fa4..c966d6d 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -236,7 +236,7 @@ double plc_s(const plCurve * const L, const int cmp, const int vert)
 
   for(c = 0;c < cmp;c++) {
 
-    for(v = 1;v <= L->cp[c].nv; v++) {
+    for(v = 1;v <= (L->cp[c].open ? L->cp[c].nv-1 : L->cp[c].nv); v++) {
 
       d = plc_M_sq_dist(L->cp[c].vt[v-1],L->cp[c].vt[v])  /* ok not to ; */
       s += sqrt(d);	
-- 
2.43.0


From d9e424d5cec9f77a44cc638497c4482e6b203a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:57 +0000
Subject: [PATCH 024/139] fix: plc_dihedral_angles returns the wrong number of
 angles and overflows its buffer at an odd cap

---
 src/plc_dihedrals.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/plc_dihedrals.c b/src/plc_dihedrals.c
index bc7890c..99b2a7b 100644
--- a/src/plc_dihedrals.c
+++ b/src/plc_dihedrals.c
@@ -61,7 +61,13 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
 {
   int n = L->cp[0].nv;
 
-  unsigned int max_ndihedrals = (n*(n-1)*(n-2)*(n-3)*(n-4))/4;
+  unsigned int max_ndihedrals = 0; /* 2 (n 4) */
+
+  if (n >= 4) {
+
+    max_ndihedrals = ((unsigned long)(n)*(n-1)*(n-2)*(n-3))/12;
+
+  }
 
   if (*ndihedrals == 0) { 
 
@@ -82,6 +88,12 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
 
   }
 
+  if (*ndihedrals == 0) { /* Fewer than 4 vertices. */
+
+    return angles;
+
+  }
+
   gsl_combination *combo;
   combo = gsl_combination_calloc(n,4);
 
@@ -107,6 +119,8 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
     angles[i] = plc_angle(plc_normal(a,b,d,&ok1),plc_normal(b,c,d,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
     i++;
+
+    if (i == *ndihedrals) { break; }
     
     angles[i] = plc_angle(plc_normal(a,b,c,&ok1),plc_normal(c,d,a,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
-- 
2.43.0


From efa06ca7cd1269e8169a45ed905f6fad57e2cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:57 +0000
Subject: [PATCH 025/139] fix: plc_rotate leaves the constraints of the curve
 behind

---
 src/plCurve.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index c966d6d..e3e4007 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2589,7 +2589,7 @@ void plc_pfm(plCurve *link, int cp, int vt0, int vt1, double angle)
 void plc_rotate(plCurve *link, plc_vector axis, double angle)
 
 /* Rotate the link around a given axis. The tricky part is that we must transform the 
-   symmetry group accordingly. FIXME: We need to transform constraints, too! */
+   symmetry group and the constraints accordingly. */
 
 {
   int vt,cp;
@@ -2653,6 +2653,22 @@ void plc_rotate(plCurve *link, plc_vector axis, double angle)
 
   }
 
+  plc_constraint *cst;
+
+  for(cst=link->cst;cst != NULL;cst=cst->next) {
+
+    cst->vect[0] = plc_rotate_vect(cst->vect[0],axis,angle);
+
+    if (cst->kind == line) {
+
+      cst->vect[1] = plc_rotate_vect(cst->vect[1],axis,angle);
+
+    }
+
+    /* For a plane, vect[1] holds the distance to the origin, which is preserved. */
+
+  }
+
   /* Finally, we changed vertices, so we need to */
 
   plc_fix_wrap(link);
-- 
2.43.0


From e0260152a6e821eaa58a65ac40a34419da34fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:57 +0000
Subject: [PATCH 026/139] fix: plc_random_rotate does nothing when the axis
 points straight down

---
 src/plCurve.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index e3e4007..29be71b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2836,9 +2836,23 @@ void plc_random_rotate(plCurve *link, plc_vector axis)
     /* Finally, we changed vertices, so we need to */
     
     plc_fix_wrap(link);
+
+  } else if (zrand < 0) { // the axis is (0,0,-1): make a half turn around the x axis
+
+    for(cp=0;cp < link->nc;cp++) {
+      for(vt=0;vt<link->cp[cp].nv;vt++) {
+
+	link->cp[cp].vt[vt].c[1] *= -1;
+	link->cp[cp].vt[vt].c[2] *= -1;
+
+      }
+    }
+
+    plc_fix_wrap(link);
+
   }
 
-  // else z is essentially 0 so we'll just leave things as is
+  // else the axis is (0,0,1) already so we'll just leave things as is
 }
 
 
-- 
2.43.0


From d46a4eb1f31a01649522ac52fe080b2159d3a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:18 +0000
Subject: [PATCH 027/139] fix: pd_diagram_isotopic exits the program when the
 component tags do not match, instead of returning false

---
 src/pd_isomorphisms.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 510598a..479cb76 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2562,11 +2562,12 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     }
 
-    if (!tag_found) { /* Something weird has happened. */
+    if (!tag_found) { /* The tags don't match, so this can't be an isotopy. */
 
-      pd_error(SRCLOC,"couldn't find tag from %COMP of pdA = %PD in",pdA,i);
-      pd_error(SRCLOC,"pdB = %PD\n",pdB);
-      exit(1);
+      pd_free_container(&isos,pd_free_fake);
+      pd_free_perm((void **)(&comp_perm));
+      *nisos = 0;
+      return NULL;
 
     }
 
-- 
2.43.0


From 8c145c25904cf9152377f16429a94bdcbddd6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:19 +0000
Subject: [PATCH 028/139] fix: pd_diagram_isotopic exits the program when
 matching tags permute the components

---
 src/pd_isomorphisms.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 479cb76..cea9eab 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2575,6 +2575,8 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
   /* We SHOULD have assembled a permutation of components. */
 
+  pd_regenerate_pcidx(comp_perm); /* Identify the map with its precomputed perm. */
+
   if (!pd_perm_ok(comp_perm)) {
 
     pd_error(SRCLOC,"matching tags in pd_diagram_isotopic yielded component permutation %PERM, which is not ok\n",pdA,comp_perm);
-- 
2.43.0


From 4b8112425929f2baeed6b024c07351bb45d2cde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 029/139] fix: pd_diagram_isotopic ignores the orientation of
 components with two edges

---
 src/pd_isomorphisms.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index cea9eab..67d8c80 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -1083,6 +1083,27 @@ pd_crossmap_t *pdint_build_oriented_signed_crossmap(pd_code_t *pdA,pd_code_t *pd
 
   }
 
+  /* The edges must run between corresponding crossings in the direction given
+     by the edgemap. (The edge numbers alone don't guarantee this: reversing a
+     component of two edges is the same permutation as rotating it.) */
+
+  pd_idx_t edge;
+
+  for(edge=0;edge<pdA->nedges;edge++) {
+
+    pd_edge_t image = pd_oriented_edge(pdB->edge[edgemap->perm->map[edge]],
+				       edgemap->orient[edge]);
+
+    if (crossmap->perm->map[pdA->edge[edge].head] != image.head ||
+	crossmap->perm->map[pdA->edge[edge].tail] != image.tail) {
+
+      pd_free_crossmap(&crossmap);
+      return NULL;
+
+    }
+
+  }
+
   /* We have now generated the map for the permutation, but not
      identified it with a precomputed perm. We try: */
 
-- 
2.43.0


From 6d884522da56d9cc25cbf245e8569798d8e9cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:35 +0000
Subject: [PATCH 030/139] fix: composing permutations and edge maps leaves a
 stale precomputed index, so the product is not ok

---
 src/pd_isomorphisms.c | 3 +++
 src/pd_perm.c         | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 67d8c80..12cd023 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -771,6 +771,8 @@ pd_edgemap_t  *pd_compose_edgemaps(pd_edgemap_t *A,pd_edgemap_t *B)
 
   }
 
+  pd_regenerate_pcidx(AstarB->perm);
+
   return AstarB;
 
 }
@@ -781,6 +783,7 @@ void           pd_stareq_edgemap(pd_edgemap_t *A,pd_edgemap_t *B)
   pd_edgemap_t *AstarB;
   AstarB = pd_compose_edgemaps(A,B);
   memcpy(A->perm->map,AstarB->perm->map,A->perm->n*sizeof(pd_idx_t));
+  A->perm->pc_idx = AstarB->perm->pc_idx;
   memcpy(A->orient,AstarB->orient,A->perm->n*sizeof(pd_or_t));
   pd_free_edgemap(&AstarB);
 }
diff --git a/src/pd_perm.c b/src/pd_perm.c
index 41cf09b..80fa60b 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -501,6 +501,8 @@ void pd_stareq_perm(pd_perm_t *A,pd_perm_t *B)
   
   memcpy(A->map,newmap,n*sizeof(pd_idx_t));
   free(newmap);
+
+  pd_regenerate_pcidx(A);
 }
   
 unsigned int pd_perm_period(pd_perm_t *A) 
-- 
2.43.0


From 4171853db12aa3d149a4e95085dda6044d66c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:57 +0000
Subject: [PATCH 031/139] fix: pd_pack aborts on the 0-crossing diagram, so it
 cannot be stored in a pdstor

---
 src/pd_pack.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index 03d31cd..53c780f 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -302,6 +302,13 @@ unsigned int *pd_pack(pd_code_t *pd,unsigned int *packedlength)
   int k;
   bool crossings_consistent = true;
 
+  if (pd->ncross == 0) { /* The 0-crossing unknot: there are no crossings to pack. */
+
+    *packedlength = 1;
+    return calloc(1,sizeof(unsigned int));
+
+  }
+
   if (pd->cross[0].sign == PD_UNSET_ORIENTATION) {
 
     for(k=1;k<pd->ncross;k++) {
@@ -387,6 +394,8 @@ pd_code_t *pd_unpack(unsigned int *bitform)
   
   pd_idx_t ncross;
   pd_signcross_t crtype;
+
+  if (bitform[0] == 0) { return pd_build_unknot(0); }
   
   if ((int)(bitform[0]) > 0) {
 
-- 
2.43.0


From 3e5a7fe7ff8749fe3c60121d996add2fa6e6477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:54 +0000
Subject: [PATCH 032/139] fix: pd_read_pdstor accepts a corrupt header (claimed
 and actual counts differ) unless verbose

---
 src/pd_storage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index c2852af..78b027b 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -742,10 +742,11 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
       if (PD_VERBOSE) {
 
 	printf("pd_read_pdstor: Header of pdstor file appears corrupt.\n");
-	return NULL;
 
       }
 
+      return NULL;
+
     }
 
     nelts = nelts_claimed;
-- 
2.43.0


From a49db874321a60d41518ef868fab237df7abe314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:54 +0000
Subject: [PATCH 033/139] fix: pd_read_pdstor never accepts a file whose header
 leaves the number of elements open

---
 src/pd_storage.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 78b027b..6c2ff9d 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -761,6 +761,14 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
   for(elt=0;elt<nelts && !feof(stream);elt++) {
 
+    if (nelts == UINT_MAX) { /* We don't know the count, so stop at the end of the file */
+
+      char next;
+      if (fscanf(stream," %c",&next) != 1) { break; }
+      ungetc(next,stream);
+
+    }
+
     if (PD_VERBOSE) { /* Actually draw a progress bar */
 
       printf("pd_read_pdstor: Read %u of %u pdcodes.\r",elt,nelts);
@@ -785,7 +793,7 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
   }
 
-  if (elt != nelts) { 
+  if (elt != nelts && nelts != UINT_MAX) { 
 
     if (PD_VERBOSE) { printf("pd_read_pdstor: Only read %u of %u elements from file.\n",elt,nelts); }
     pd_free_pdstor(&pdstor);
@@ -795,7 +803,7 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
   if (PD_VERBOSE) { 
 
-    printf("pd_read_pdstor: Read %u elements from stream.\n",nelts);
+    printf("pd_read_pdstor: Read %u elements from stream.\n",elt);
     
   }
 
-- 
2.43.0


From 3d8b1a7782fade2a66374d71a19759c4c5c6868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:17 +0000
Subject: [PATCH 034/139] fix: pd_read_KnotTheory misorients two-edge
 components, does not check edge numbers and exits on bad data

---
 src/pdcode.c | 568 +++++++++------------------------------------------
 1 file changed, 91 insertions(+), 477 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 3de8aee..a854751 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3771,528 +3771,145 @@ ones we don't need.
      to extract the information needed to allocate and fill a pd_code_t from this buffer,
      then free it. The first task is to allocate space for the code. */
 
-  pd_code_t *pd = pd_code_new(crbuf_used+2);
-  assert(pd != NULL);
-
-  pd_idx_t cr;
+  int ncr = crbuf_used, nedg = 2*crbuf_used, cr, pos, e;
 
-  /* Now we're going to scan through and set crossings AND EDGES. */
+  /* occ[2*e] and occ[2*e+1] are the two places (4*crossing + position)
+     where edge e appears. A file in which some edge doesn't appear
+     exactly twice isn't a pd code at all. */
 
-  for(cr=0;cr<crbuf_used;cr++) {
+  int *occ = malloc(2*nedg*sizeof(int)), *nocc = calloc(nedg,sizeof(int));
+  assert(occ != NULL); assert(nocc != NULL);
 
-    pd_idx_t j;
-    for(j=0;j<4;j++) {
+  for(cr=0;cr<ncr;cr++) {
 
-      pd->cross[cr].edge[j] = crbuf[cr].edge[j]-1;
-
-      if (j==0) { /* We're definitely going IN */
+    for(pos=0;pos<4;pos++) {
 
-	pd->edge[pd->cross[cr].edge[j]].head = cr;
-	pd->edge[pd->cross[cr].edge[j]].headpos = 0;
+      pd_idx_t num = crbuf[cr].edge[pos];
 
-      } else if (j==2) { /* We're definitely going OUT */
+      if (num < 1 || num > (pd_idx_t)(nedg) || nocc[num-1] == 2) {
 
-	pd->edge[pd->cross[cr].edge[j]].tail = cr;
-	pd->edge[pd->cross[cr].edge[j]].tailpos = 2;
+	printf("pd_read_KnotTheory: Crossing %d refers to edge %d, which is out of range or appears too often.\n",cr,(int)(num));
+	free(occ); free(nocc); free(crbuf);
+	return NULL;
 
       }
 
-      /* In positions 1 and 3 we don't know yet, and we'll have to
-	 use more information to figure out edge orientation. */
-
-    }
-
-    /* Determining sign is a lot trickier. Recall that the
-       convention used to determine sign is this:
-
-            ^
-            |
-       ----------->
-            |
-            |
-	    0
-
-     positive crossing
-     (upper tangent vector) x (lower tangent vector) points OUT of screen.
-     This is true when the edges in positions 1 and 3 are in the order 3 -> 1.
-
-            ^
-            |
-      0-----|----->
-            |
-            |
-
-     negative crossing
-     (upper tangent vector) x (lower tangent vector) points INTO screen.
-     This is true when the edges in positions 1 and 3 are in the order 1 -> 3.
-
-     The problem (and it's a large one) is that the edge numbers wrap
-     around at the end of the component.
-
-     So if pd->cross[cr].edge[3] and pd->cross[cr].edge[1] differ by
-     1, we know which way the strand is going -- it's going in the
-     "up" direction.
-
-     If they differ by more than one, the strand indices are wrapping
-     around, and the strand goes in the "down" direction.
-
-     For a 2 edge component, we're going to need a better algorithm:
-
-        If the two-edge component lies OVER the remainder of the link,
-	its' orientation is genuinely unspecified by the KnotTheory
-	data. In this case, we can assign either orientation to the
-	component, but must do so consistently.
-
-	If the two-edge component is Hopf-linked to the rest of the link,
-	it's orientation IS specified, but only by the crossing where it
-	goes UNDER.
-
-    */
-
-    if (pd->cross[cr].edge[3] - pd->cross[cr].edge[1] == 1) { // 1 -> 3
-
-      pd->cross[cr].sign = PD_NEG_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[1]].head = cr;
-      pd->edge[pd->cross[cr].edge[1]].headpos = 1;
-
-      pd->edge[pd->cross[cr].edge[3]].tail = cr;
-      pd->edge[pd->cross[cr].edge[3]].tailpos = 3;
-
-    } else if (pd->cross[cr].edge[1] - pd->cross[cr].edge[3] == 1) { // 3 -> 1
-
-      pd->cross[cr].sign = PD_POS_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[3]].head = cr;
-      pd->edge[pd->cross[cr].edge[3]].headpos = 3;
-
-      pd->edge[pd->cross[cr].edge[1]].tail = cr;
-      pd->edge[pd->cross[cr].edge[1]].tailpos = 1;
-
-    } else if (pd->cross[cr].edge[1] > pd->cross[cr].edge[3]) { // 1 -> 3, wrapping
-
-      pd->cross[cr].sign = PD_NEG_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[1]].head = cr;
-      pd->edge[pd->cross[cr].edge[1]].headpos = 1;
-
-      pd->edge[pd->cross[cr].edge[3]].tail = cr;
-      pd->edge[pd->cross[cr].edge[3]].tailpos = 3;
-
-    } else { // 3 -> 1, wrapping
-
-      pd->cross[cr].sign = PD_POS_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[3]].head = cr;
-      pd->edge[pd->cross[cr].edge[3]].headpos = 3;
-
-      pd->edge[pd->cross[cr].edge[1]].tail = cr;
-      pd->edge[pd->cross[cr].edge[1]].tailpos = 1;
-
+      e = num-1;
+      occ[2*e + nocc[e]++] = 4*cr + pos;
 
     }
 
   }
 
-  pd->ncross = crbuf_used;
-  pd->nedges = 2*crbuf_used;
-  pd->nfaces = crbuf_used + 2;
-
-  /* We now search for two-edge components in the list. Unfortunately,
-     none of the existing "regenerate" codes are going to do the trick here,
-     because they all resort the crossings, losing the information we'll
-     need to correct our past errors (if any).
-  */
-
-  pd_idx_t crA, crB;
-
-  for(crA=0;crA<pd->ncross-1;crA++) {
-
-    for(crB=crA+1;crB<pd->ncross;crB++) {
-
-
-      /*       +------<--e2-----+
-	       |                |
-	       |0               |2
-	   1   |    3        3  |   1
-	+-------------->---------------+
-	 crA   |                |   crB
-	       |2               |0
-	       |                |
-	       +------->--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-
-      /*       +------->-e2-----+
-	       |                |
-	       |2               |0
-	   3   |    1        1  |   3
-	+-------------->---------------+
-	 crA   |                |   crB
-	       |0               |2
-	       |                |
-	       +-------<-e1-----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[1]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------->-e2-----+
-	       |                |
-	       |3               |3
-	   0   |    2        0  |   2
-	+------|------->--------|------+
-	 crA   |                |   crB
-	       |1               |1
-	       |                |
-	       +-------<--e1----+
-
-	   taken as default, instead of
-
-	       +----------------+
-	       |                |
-	       |3               |3
-	   0   |    2        0  |   2
-	+------|------->--------|------+
-	 crA   |                |   crB
-	       |1               |1
-	       |                |
-	       +------->--------+
-
-	   which has the same pd code.
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +-------->-e2----+
-	       |                |
-	       |1               |1
-	   2   |    0        2  |   0
-	+------|-------<--------|------+
-	 crA   |                |   crB
-	       |3               |3
-	       |                |
-	       +-------<-e1-----+
-
-	   taken as default, instead of
-
-	       +----------------+
-	       |                |
-	       |1               |1
-	   2   |    0        2  |   0
-	+------|-------<--------|------+
-	 crA   |                |   crB
-	       |3               |3
-	       |                |
-	       +------->--------+
-
-	   which has the same pd code.
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +-------<---e2---+
-	       |                |
-	       |3               |2
-	   0   |    2        3  |   1
-	+------|------->---------------+
-	 crA   |                |   crB
-	       |1               |0
-	       |                |
-	       +------->---e1---+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------<---e2----+
-	       |                |
-	       |1               |2
-	   2   |    0        3  |   1
-	+------|-------<---------------+
-	 crA   |                |   crB
-	       |3               |0
-	       |                |
-	       +------->--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------->---e2---+
-	       |                |
-	       |1               |0
-	   2   |    0        1  |   3
-	+------|-------<---------------+
-	 crA   |                |   crB
-	       |3               |2
-	       |                |
-	       +-------<---e1---+
-
-      */
-
-      if (pd->cross[crB].edge[0] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------>---e2----+
-	       |                |
-	       |3               |0
-	   0   |    2        1  |   3
-	+------|------->---------------+
-	 crA   |                |   crB
-	       |1               |2
-	       |                |
-	       +-------<--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[0] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
+  pd_code_t *pd = pd_code_new(crbuf_used+2);
+  assert(pd != NULL);
 
-      /*       +------<-e2------+
-	       |                |
-	       |0               |3
-	   1   |    3        0  |   2
-	+-------------->--------|------+
-	 crA   |                |   crB
-	       |2               |1
-	       |                |
-	       +------->-e1-----+
+  for(cr=0;cr<ncr;cr++) {
 
-      */
+    for(pos=0;pos<4;pos++) { pd->cross[cr].edge[pos] = crbuf[cr].edge[pos]-1; }
 
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3]) {
+  }
 
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+  free(crbuf); /* We're done with the crossing buffer. */
 
-	pd_idx_t e1, e2;
+  /* Now we orient the components, which sets the heads and tails of
+     the edges and the signs of the crossings.
 
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
+     Wherever a component goes UNDER, it enters at position 0 and leaves
+     at position 2, so one such crossing fixes the direction of the
+     whole component (and all of them must agree).
 
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+     If the component goes OVER at every crossing, all we have is the
+     numbering: edges are numbered consecutively along the component,
+     so the lowest numbered edge is followed by the next one. (If there
+     are only two edges, the orientation is genuinely unspecified by the
+     KnotTheory data, and we take either one.)
 
-      }
+     Recall that the convention used to determine sign is this:
 
-      /*       +-------<--e2----+
-	       |                |
-	       |0               |1
-	   1   |    3        2  |   0
-	+--------------<--------|------+
-	 crA   |                |   crB
-	       |2               |3
-	       |                |
-	       +------->--e1----+
+            ^
+            |
+       ----------->
+            |
+            |
+	    0
 
-      */
+     positive crossing
+     (upper tangent vector) x (lower tangent vector) points OUT of screen.
+     This is true when the edges in positions 1 and 3 are in the order 3 -> 1,
+     while for a negative crossing, they are in the order 1 -> 3. */
 
-      if (pd->cross[crB].edge[1] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[3]) {
+  for(e=0;e<nedg;e++) { nocc[e] = 0; } /* From here on, marks edges which are done. */
 
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
+  for(e=0;e<nedg;e++) {
 
-	pd_idx_t e1, e2;
+    if (nocc[e]) { continue; }
 
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
+    /* Walk along the component from the second appearance of e. */
 
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+    int forward = 0, backward = 0, out = occ[2*e+1], second = -1, cur = e;
 
+    do {
 
-      }
+      int next, in;
 
-      /*       +------->--e2----+
-	       |                |
-	       |0               |1
-	   1   |    3        2  |   0
-	+--------------<--------|------+
-	 crA   |                |   crB
-	       |2               |3
-	       |                |
-	       +-------<--e1----+
+      cr = out/4; pos = out%4;
+      in = 4*cr + (pos+2)%4;
+      next = pd->cross[cr].edge[(pos+2)%4];
 
-      */
+      if (pos == 0) { forward++; }
+      if (pos == 2) { backward++; }
+      if (second == -1) { second = next; }
 
-      if (pd->cross[crB].edge[1] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[3]) {
+      nocc[cur] = 1;
+      cur = next;
+      out = (occ[2*cur] == in) ? occ[2*cur+1] : occ[2*cur];
 
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+    } while (cur != e);
 
-	pd_idx_t e1, e2;
+    if (forward != 0 && backward != 0) {
 
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
+      printf("pd_read_KnotTheory: The component of edge %d is not consistently oriented.\n",e+1);
+      free(occ); free(nocc); pd_code_free(&pd);
+      return NULL;
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+    }
 
+    if (forward == 0 && backward == 0) { backward = (second != e+1); }
 
-      }
+    /* Walk along it again in the direction we have just found. */
 
-      /*       +------->--e2----+
-	       |                |
-	       |0               |3
-	   1   |    3        0  |   2
-	+-------------->--------|------+
-	 crA   |                |   crB
-	       |2               |1
-	       |                |
-	       +-------<--e1----+
+    out = (backward == 0) ? occ[2*e+1] : occ[2*e];
+    cur = e;
 
-      */
+    do {
 
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3]) {
+      int next;
 
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
+      cr = out/4; pos = out%4;
+      next = pd->cross[cr].edge[(pos+2)%4];
 
-	pd_idx_t e1, e2;
+      pd->edge[cur].head = cr;
+      pd->edge[cur].headpos = pos;
 
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
+      pd->edge[next].tail = cr;
+      pd->edge[next].tailpos = (pos+2)%4;
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+      if (pos == 1) { pd->cross[cr].sign = PD_NEG_ORIENTATION; }
+      if (pos == 3) { pd->cross[cr].sign = PD_POS_ORIENTATION; }
 
-      }
+      out = (occ[2*next] == 4*cr + (pos+2)%4) ? occ[2*next+1] : occ[2*next];
+      cur = next;
 
-    }
+    } while (cur != e);
 
   }
 
+  free(occ); free(nocc);
+
+  pd->ncross = ncr;
+  pd->nedges = nedg;
+  pd->nfaces = ncr + 2;
 
   /* We can now detect everything else by regenerating... */
 
@@ -4300,27 +3917,24 @@ ones we don't need.
 
   /* We double check that we got crossing signs... */
 
-  for(cr=0;cr<pd->ncross;cr++) {
+  for(cr=0;cr<ncr;cr++) {
 
     if (pd->cross[cr].sign == PD_UNSET_ORIENTATION) {
 
-      pd_error(SRCLOC,
-	       "read_KnotTheory unable to maintain crossing signs across pd_regenerate call\n"
-	       "there must be a problem with edges generated by pd_read_KnotTheory.",pd);
-      exit(1);
+      printf("pd_read_KnotTheory: Unable to maintain crossing signs across pd_regenerate call. Suspect data is corrupt.\n");
+      pd_code_free(&pd);
+      return NULL;
 
     }
 
   }
 
-  /* We're done with the crossing buffer. */
-  free(crbuf);
-
   /* We now make a final check, then terminate... */
 
   if (!pd_ok(pd)) {
 
     printf("pd_read_KnotTheory: Regenerated PD does not pass pd_ok. Suspect data is corrupt.\n");
+    pd_code_free(&pd);
     return NULL;
 
   }
-- 
2.43.0


From 5dc19655973d9fba7c8a0ae8dab6ebdf96924fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:14 +0000
Subject: [PATCH 035/139] fix: pd_regenerate crashes on a 0-crossing code

---
 src/pdcode.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index a854751..c0abc7c 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2074,6 +2074,13 @@ void pd_regenerate(pd_code_t *pd)
 {
   assert(pd != NULL);
 
+  if (pd->ncross == 0) { /* There are no crossings to regenerate anything from. */
+
+    pd_regenerate_hash(pd);
+    return;
+
+  }
+
   pd_regenerate_crossings(pd); /* This can always be run */
 
   /* Now regenerating the edges will destroy crossing sign information.
-- 
2.43.0


From ff6b5727b4f9c7f43f87d9e135bdaa6be11fcf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:14 +0000
Subject: [PATCH 036/139] fix: pd_read_KnotTheory exits the program on
 crossings which do not form a connected planar diagram

---
 src/pdcode.c | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index c0abc7c..1d91f55 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3808,6 +3808,59 @@ ones we don't need.
 
   }
 
+  /* pd_regenerate expects a connected diagram on the sphere, that is, every
+     crossing can be reached from the first one and there are ncr+2 faces. */
+
+  int *stack = malloc(ncr*sizeof(int)), *seen = calloc(4*ncr,sizeof(int));
+  int depth = 0, reached = 0, nfaces = 0, d;
+  assert(stack != NULL); assert(seen != NULL);
+
+  for(stack[depth++] = 0,seen[0] = 1;depth > 0;) {
+
+    cr = stack[--depth]; reached++;
+
+    for(pos=0;pos<4;pos++) {
+
+      e = crbuf[cr].edge[pos]-1;
+      int other = (occ[2*e] == 4*cr + pos) ? occ[2*e+1]/4 : occ[2*e]/4;
+      if (!seen[other]) { seen[other] = 1; stack[depth++] = other; }
+
+    }
+
+  }
+
+  for(d=0;d<4*ncr;d++) { seen[d] = 0; }
+
+  for(d=0;d<4*ncr;d++) {
+
+    if (!seen[d]) {
+
+      int next = d;
+      nfaces++;
+
+      do { /* Cross to the other end of the edge, then turn left */
+
+	seen[next] = 1;
+	e = crbuf[next/4].edge[next%4]-1;
+	next = (occ[2*e] == next) ? occ[2*e+1] : occ[2*e];
+	next = 4*(next/4) + (next+3)%4;
+
+      } while (next != d);
+
+    }
+
+  }
+
+  free(stack); free(seen);
+
+  if (reached != ncr || nfaces != ncr+2) {
+
+    printf("pd_read_KnotTheory: The crossings do not form a connected planar diagram.\n");
+    free(occ); free(nocc); free(crbuf);
+    return NULL;
+
+  }
+
   pd_code_t *pd = pd_code_new(crbuf_used+2);
   assert(pd != NULL);
 
-- 
2.43.0


From 6e0af91ec6529ea1683b2ddb7cf00c40fd63921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:45 +0000
Subject: [PATCH 037/139] fix: pd_read accepts codes with a wrong number of
 faces

---
 src/pdcode.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 1d91f55..ed98b93 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3600,6 +3600,18 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   }
 
+  if (pd->nfaces != pd->ncross + 2) {
+
+    pd_error(SRCLOC,
+	    "Reading pd code which appears to be valid but has %d faces. "
+	     "A diagram with %d crossings has %d faces in %PD\n",pd,
+	     pd->nfaces,pd->ncross,pd->ncross+2);
+    pd_err_set(err, PD_BAD_FORMAT);
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   /* <nf lines, each in the format nedges edge edge
      ... edge giving face info counterclockwise> */
 
-- 
2.43.0


From e9371b8bcf67e5d1948671fe2519d3c3cd4448a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:37 +0000
Subject: [PATCH 038/139] fix: pd_read_pdstor aborts on a code with only some
 of its crossing signs set

---
 src/pd_storage.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 6c2ff9d..2402999 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -785,6 +785,20 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
     } else {
 
+      /* The store can't hold a code with only some of its crossing signs set. */
+
+      pd_idx_t i, nunset = 0;
+      for(i=0;i<pd->ncross;i++) { if (pd->cross[i].sign == PD_UNSET_ORIENTATION) { nunset++; } }
+
+      if (nunset != 0 && nunset != pd->ncross) {
+
+	if (PD_VERBOSE) { printf("pd_read_pdstor: pd code %d has only some of its crossing signs set.\n",elt); }
+	pd_code_free(&pd);
+	pd_free_pdstor(&pdstor);
+	return NULL;
+
+      }
+
       pd_addto_pdstor(pdstor,pd,eq);
 
     }
-- 
2.43.0


From aabb65bc49e152fd3e9c398a8e232c87157b2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:04 +0000
Subject: [PATCH 039/139] fix: pd_connect_sum indexes out of range when a
 summand is the 0-crossing unknot

---
 src/pd_crossingmoves.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 6b6f72f..3d52da1 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -2298,6 +2298,11 @@ pd_code_t *pd_connect_sum(pd_code_t *pdA, pd_idx_t edgeA,
   pd_check_edge(SRCLOC,pdA,edgeA);
   pd_check_edge(SRCLOC,pdB,edgeB);
 
+  /* Summing with a 0-crossing unknot doesn't change anything. */
+
+  if (pdA->ncross == 0) { return pd_copy(pdB); }
+  if (pdB->ncross == 0) { return pd_copy(pdA); }
+
   /* The algorithm here is straightforward; allocate space,
      copy crossings and edges, then reconnect edges. */
 
-- 
2.43.0


From 1c2296f9fae8ffeadb302ac4cb3c8e8b0519b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:43 +0000
Subject: [PATCH 040/139] fix: lmpoly_to_polynomial overflows its buffer when
 rows have a single coefficient

---
 src/polynomials.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 2592d96..b6374d2 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -159,10 +159,10 @@ homfly_polynomial_t *lmpoly_to_polynomial(char *lmout)
 
   /* We now have the initialmpower set up. */
   /* We need to count the actual number of monomials in the strings. This
-     is certainly overestimated the number of spaces in the initial string. */
+     is certainly overestimated by the number of spaces and N's in the string. */
 
   int mono_count = 0;
-  for(i=0;lmoutput[i];i++) { mono_count += (lmoutput[i] == ' '); }
+  for(i=0;lmoutput[i];i++) { mono_count += (lmoutput[i] == ' ' || lmoutput[i] == 'N'); }
 
   /* Now we can create a buffer for the monomials themselves. */
 
-- 
2.43.0


From f077991101032b19d631e84aadce4053b1f2a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:43 +0000
Subject: [PATCH 041/139] fix: polynomial_to_lmpoly overflows its buffer and
 does not mark the m^0 line when it is empty

---
 src/polynomials.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index b6374d2..f49d901 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -413,7 +413,9 @@ int lmpoly_cmp(const void *A,const void *B)
 
 int lspan(monomial_t *poly,int nmonos) {
 
-  int lowl = INT_MAX, hil = INT_MIN;
+  /* The number of powers of l from the lowest to the highest, including 0. */
+
+  int lowl = 0, hil = 0;
   int i;
 
   for(i=0;i<nmonos;i++) {
@@ -423,12 +425,14 @@ int lspan(monomial_t *poly,int nmonos) {
 
   }
 
-  return hil - lowl;
+  return hil - lowl + 1;
 }
 
 int mspan(monomial_t *poly,int nmonos) {
 
-  int lowm = INT_MAX, him = INT_MIN;
+  /* The number of powers of m from the lowest to the highest, including 0. */
+
+  int lowm = 0, him = 0;
   int i;
 
   for(i=0;i<nmonos;i++) {
@@ -438,7 +442,7 @@ int mspan(monomial_t *poly,int nmonos) {
 
   }
 
-  return him - lowm;
+  return him - lowm + 1;
 }
 
 
@@ -537,6 +541,14 @@ void write_lmpoly_mline(char *buf,monomial_t *mline,int nmonos)
 
 }
 
+static void write_lmpoly_emptyline(char *buf,int m)
+
+/* Writes a line without monomials; the line m == 0 has the extra brackets. */
+
+{
+  strcat(buf,(m == 0) ? "[[0]]N" : "[0]N");
+}
+
 char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
 
 /* Returns a buffer giving the polynomial in the (slightly weird) lmpoly format */
@@ -569,6 +581,9 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
   lsize = 1;
   mline[0] = sortPoly[0];
 
+  int mcount; /* The line m == 0 must be present. */
+  for(mcount=0;mcount<mline[0].m;mcount++) { write_lmpoly_emptyline(outbuf,mcount); }
+
   for(i=1;i<nmonos;i++) {
 
     if (mline[lsize-1].m == sortPoly[i].m) { /* Part of the same line, push onto it. */
@@ -582,10 +597,10 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
 
       write_lmpoly_mline(outbuf,mline,lsize);
 
-      int mcount = mline[0].m+1;
+      mcount = mline[0].m+1;
       for(;mcount<sortPoly[i].m;mcount++) { /* Add placeholder lines. */
 
-	sprintf(writebuf,"[0]N");strcat(outbuf,writebuf);
+	write_lmpoly_emptyline(outbuf,mcount);
 
       }
 
@@ -600,6 +615,7 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
 
   /* We have a last line, so write it. */
   write_lmpoly_mline(outbuf,mline,lsize);
+  for(mcount=mline[0].m+1;mcount<=0;mcount++) { write_lmpoly_emptyline(outbuf,mcount); }
 
   /* Now add a trailing space */
   sprintf(writebuf," "); strcat(outbuf,writebuf);
-- 
2.43.0


From 6c1f56e23562d60dfc5177e1d37fa74ccea40785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:43 +0000
Subject: [PATCH 042/139] fix: KnotTheory_to_polynomial allocates too little
 space for the polynomial

---
 src/polynomials.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index f49d901..06d1bd5 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -665,7 +665,7 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 
   }
 
-  homfly_polynomial_t *homfly = calloc(1,sizeof(homfly_polynomial_t *));
+  homfly_polynomial_t *homfly = calloc(1,sizeof(homfly_polynomial_t));
   assert(homfly != NULL);
   homfly->mono = calloc(nterms,sizeof(monomial_t));
   assert(homfly->mono != NULL);
-- 
2.43.0


From cb7eadbbc0818a03374ecea4dbab2c033a89597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:43 +0000
Subject: [PATCH 043/139] fix: product_polynomial keeps monomials whose
 coefficients cancel

---
 src/polynomials.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/polynomials.c b/src/polynomials.c
index 06d1bd5..84fb124 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -389,6 +389,15 @@ homfly_polynomial_t *product_polynomial(homfly_polynomial_t *pA, homfly_polynomi
   nFin++;
   free(rawProduct);
 
+  /* Terms which cancelled are not part of the product. */
+
+  for(i=0,j=0;i<nFin;i++) {
+
+    if (finishedProduct->mono[i].coeff != 0) { finishedProduct->mono[j++] = finishedProduct->mono[i]; }
+
+  }
+  nFin = j;
+
   finishedProduct->nmonomials = nFin;
   return finishedProduct;
 
-- 
2.43.0


From 38eec8ebb08d40a049f81093b3a4c222395d4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 044/139] fix: pd_code_from_plCurve rotates a copy of the curve
 but never uses it, so a multiple point in the z-projection is fatal

---
 src/plcTopology.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index aa5335b..62dbf79 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1354,9 +1354,10 @@ pd_code_t *pd_code_from_plCurve(gsl_rng *rng, plCurve *L) {
       printf("Perturbing to make crossing-clean...");
     }
 
-    /* Step 2. Perturb to make it crossing-clean. */
+    /* Step 2. Perturb to make it crossing-clean. We try the original
+       projection direction first; after a failure, we use the rotated copy. */
 
-    plCurve *genericL = make_zprojection_generic(rng,L);
+    plCurve *genericL = make_zprojection_generic(rng,attempt_number == 0 ? L : workingL);
 
     if (pd_code_from_plCurve_verbose) {
 
-- 
2.43.0


From cd97eee5070ec983b836d294540ef920444096f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:56 +0000
Subject: [PATCH 045/139] fix: pd_classify frees the caller's code, and
 plc_classify leaks the code it makes

---
 src/plcTopology.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 62dbf79..cf00a37 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1550,7 +1550,7 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   if (pdC == NULL) { *nposs = 0; return NULL; } /* For a singular polygon, don't classify. */
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
+  pd_code_free(&pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
@@ -1644,7 +1644,6 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   }
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
-- 
2.43.0


From 92f95ad9ca366239f35101fbfdcb0747031b2015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 046/139] fix: plc_read_knottype never sets the number of
 factors, frees the wrong pointer and looks up the wrong index bounds

---
 src/plcTopology.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index cf00a37..729efa9 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1727,12 +1727,21 @@ plc_knottype *plc_read_knottype(const char *kt)
   char *primecomp;
   plc_knottype *working_kt;
   int pc = 0;
-  char *working_copy = calloc(strlen(kt)+10,sizeof(char));
+  char *working_copy = calloc(strlen(kt)+10,sizeof(char)), *saveptr = NULL;
   strcpy(working_copy,kt);
-  int maxind[19] = {0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
+  /* The number of prime knots with 0, 1, ..., 19 crossings (0_1 is the unknot). */
+  int maxind[20] = {1, 0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
 
   working_kt = calloc(1,sizeof(plc_knottype));
-  while((primecomp = strtok_r(working_copy,"#",&working_copy)) != NULL) {
+  for(primecomp = strtok_r(working_copy,"#",&saveptr);primecomp != NULL;primecomp = strtok_r(NULL,"#",&saveptr)) {
+
+    if (pc == MAXPRIMEFACTORS) {
+      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
+	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
+      free(working_copy);
+      free(working_kt);
+      return NULL;
+    }
 
     if (sscanf(primecomp,"%d_%d",&(working_kt->cr[pc]),&(working_kt->ind[pc])) != 2) {
       fprintf(stderr,"plc_read_knottype: Could not parse prime component %s in knot type %s.\n",primecomp,kt);
@@ -1748,8 +1757,8 @@ plc_knottype *plc_read_knottype(const char *kt)
       return NULL;
     }
 
-    if (working_kt->ind[pc] < 0 || working_kt->ind[pc] > maxind[working_kt->cr[pc]]) {
-      fprintf(stderr,"plc_read_knottype: Prime component type %s has index <0 or >%d (the number of %d crossing prime knots).\n",primecomp,
+    if (working_kt->ind[pc] < 1 || working_kt->ind[pc] > maxind[working_kt->cr[pc]]) {
+      fprintf(stderr,"plc_read_knottype: Prime component type %s has index <1 or >%d (the number of %d crossing prime knots).\n",primecomp,
 	      maxind[working_kt->cr[pc]],working_kt->cr[pc]);
       free(working_copy);
       free(working_kt);
@@ -1758,16 +1767,16 @@ plc_knottype *plc_read_knottype(const char *kt)
 
     pc++;
 
-    if (pc == MAXPRIMEFACTORS) {
-      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
-	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
-      free(working_copy);
-      free(working_kt);
+  }
 
-    }
-    
+  if (pc == 0) {
+    fprintf(stderr,"plc_read_knottype: No prime components in knot type %s.\n",kt);
+    free(working_copy);
+    free(working_kt);
+    return NULL;
   }
 
+  working_kt->nf = pc;
   free(working_copy);
   return working_kt;
 }
-- 
2.43.0


From f12d268f3a44b076fd85fd7c079adfc577af9287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:49 +0000
Subject: [PATCH 047/139] fix: tangle contents follow the outgoing edge at a
 crossing with a loop

At the crossing of a one-edge loop both transverse edge slots can name an
edge whose tail is that crossing; the loop was followed twice and the edge
that really leaves the crossing was never added to the interior.
---
 src/pd_tangles.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 992bceb..9bb8451 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -1015,11 +1015,16 @@ void tangle_contents_worker(pd_code_t *pd,pd_tangle_t *t,
   transverse_edge[0] = pd->cross[cr].edge[(pd->edge[edge].headpos+1)%4];
   transverse_edge[1] = pd->cross[cr].edge[(pd->edge[edge].headpos+3)%4];
 
-  if (pd->edge[transverse_edge[0]].tail == cr) {
+  /* An edge may start and end at cr (a loop), so we have to check
+     the position of the tail as well. */
+
+  if (pd->edge[transverse_edge[0]].tail == cr &&
+      pd->edge[transverse_edge[0]].tailpos == (pd->edge[edge].headpos+1)%4) {
 
     tangle_contents_worker(pd,t,transverse_edge[0],depth+1);
 
-  } else if (pd->edge[transverse_edge[1]].tail == cr) {
+  } else if (pd->edge[transverse_edge[1]].tail == cr &&
+	     pd->edge[transverse_edge[1]].tailpos == (pd->edge[edge].headpos+3)%4) {
 
     tangle_contents_worker(pd,t,transverse_edge[1],depth+1);
 
-- 
2.43.0


From 91ff286ca9ced2e4a8f560149c4bac80cd4ca83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:49 +0000
Subject: [PATCH 048/139] fix: tangle slide of a strand that crosses a single
 tangle edge

With two overstrand edges there is no edge in between to delete, so the
crossing was never marked for deletion and every such slide was refused.
---
 src/pd_tangles.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 9bb8451..3e19d7d 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2511,6 +2511,21 @@ end_anchor   | 	    Tangle     	 |
 
   pd_idx_t j,k;
 
+  /* The crossings at the head of e[0] and the tail of e[n-1] have to be
+     marked as well: if the overstrand only crosses one tangle edge (n == 2),
+     there were no interior edges, and nothing has marked this crossing yet. */
+
+  pd_edge_t *first_edge = &(pd_working->edge[overstrand_edges[0]]);
+  pd_edge_t *last_edge  = &(pd_working->edge[overstrand_edges[n-1]]);
+
+  pd_working->cross[first_edge->head].edge[first_edge->headpos] = PD_UNSET_IDX;
+  first_edge->head = PD_UNSET_IDX;
+  first_edge->headpos = PD_UNSET_POS;
+
+  pd_working->cross[last_edge->tail].edge[last_edge->tailpos] = PD_UNSET_IDX;
+  last_edge->tail = PD_UNSET_IDX;
+  last_edge->tailpos = PD_UNSET_POS;
+
   for(j=0;j<pd_working->ncross;j++) {
 
     bool has_unset = false;
-- 
2.43.0


From d1e29fad6003f9334d1d53b1be1e15207e3fca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:50 +0000
Subject: [PATCH 049/139] fix: tangle slide signs the new crossing when there
 is only one

The sign was only assigned while joining pairs of new crossings, so a
single new crossing kept whatever was in freshly allocated memory.
---
 src/pd_tangles.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 3e19d7d..aa1db4f 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3136,6 +3136,24 @@ end_anchor   | 	    Tangle     	 |
        up from there.
      */
 
+    if (ncomplementary_edges == 1) {
+
+      /* The loop below signs crossings as it joins them in pairs; a
+	 single new crossing has to be signed here. */
+
+      pd_working->cross[pd->ncross].sign = PD_POS_ORIENTATION;
+
+      pd_idx_t in_overstrand, out_overstrand;
+      pd_overstrand(pd_working,pd->ncross,&in_overstrand,&out_overstrand);
+
+      if (overstrand_goes_OVER != (in_overstrand == overstrand_edges[0])) {
+
+	pd_working->cross[pd->ncross].sign = PD_NEG_ORIENTATION;
+
+      }
+
+    }
+
     for(i=1;i<ncomplementary_edges;i++) {
 
       /* Check to make sure we're ok on memory */
-- 
2.43.0


From 8ffa6608572846e5ab0e5e21e512c74fc9ab1b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:50 +0000
Subject: [PATCH 050/139] fix: tangle slide makes room for components that gain
 edges

The rebuilt component was written into a buffer of its old length.
---
 src/pd_tangles.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index aa1db4f..3ebfa14 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3484,6 +3484,12 @@ end_anchor   | 	    Tangle     	 |
 
       pd_working->comp[i].edge[0] = pd_working->comp[i].edge[j];
 
+      /* The component may have gained edges. */
+
+      pd_working->comp[i].edge = realloc(pd_working->comp[i].edge,
+					 (pd_working->MAXEDGES+2)*sizeof(pd_idx_t));
+      assert(pd_working->comp[i].edge != NULL);
+
       pd_idx_t next_edge;
       pd_or_t  next_or;
 
-- 
2.43.0


From 1704911c16ed11fe90e4fc2f8208a234b93a9803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:07 +0000
Subject: [PATCH 051/139] fix: tangle slide follows complementary edges through
 deleted crossings

A tangle edge on the far side may end at one of the crossings deleted from
the overstrand. It is then spliced to another edge and its own record is
erased, but the erased record was split and sewn back into the diagram.
---
 src/pd_tangles.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 3ebfa14..56b7dc1 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2908,6 +2908,22 @@ end_anchor   | 	    Tangle     	 |
     new_cross = pd_working->ncross;
     new_edge = pd_working->nedges;
 
+    /* The complementary edge may have been spliced to another edge when the
+       overstrand crossings were deleted. It is the edge which is now at the
+       position where it met the tangle in the original pd. */
+
+    if (complementary_or[i] == in) {
+
+      pd_edge_t *orig = &(pd->edge[complementary_edges[i]]);
+      complementary_edges[i] = pd_working->cross[orig->head].edge[orig->headpos];
+
+    } else {
+
+      pd_edge_t *orig = &(pd->edge[complementary_edges[i]]);
+      complementary_edges[i] = pd_working->cross[orig->tail].edge[orig->tailpos];
+
+    }
+
     pd_working->cross[new_cross].edge[0] = new_edge;
     pd_working->cross[new_cross].edge[1] = PD_UNSET_IDX;
     pd_working->cross[new_cross].edge[2] = complementary_edges[i];
-- 
2.43.0


From e9a984f0894296b2abd463dba3ed42b5f30c72b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:03 +0000
Subject: [PATCH 052/139] fix: octrope reports the shortest strut it uses for
 the thickness, also when no strut is below the cutoff

---
 src/octrope.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index c319f16..36b3408 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -1905,7 +1905,6 @@ void octrope(plCurve *L,
     num_struts = octrope_struts(L,strut_cutoff,strut_epsilon,strutlist,
                                 sl_size,&min_strutlength,mem,memsize);
  
-    if (min_strut_ret != NULL) { *min_strut_ret = min_strutlength; }
     if (num_strut_ret != NULL) { *num_strut_ret = num_struts; }
 #ifdef DEBUG
     if (octrope_debug_level() > 0) {
@@ -1920,7 +1919,9 @@ void octrope(plCurve *L,
       octrope_struts(L,DBL_MAX,0,NULL,0,&min_strutlength,NULL,0);
 
     }
-      
+
+    if (min_strut_ret != NULL) { *min_strut_ret = min_strutlength; }
+
   }
   
   /* Now we need the thickness, so we find the min of twice minrad/lambda 
-- 
2.43.0


From e20d50e9921d303be8e86746c19281f74cc97c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:07 +0000
Subject: [PATCH 053/139] fix: octrope_minrad does not lose locations when the
 list is full of ones which are dropped later

---
 src/minrad.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/minrad.c b/src/minrad.c
index e3b2e11..d579533 100755
--- a/src/minrad.c
+++ b/src/minrad.c
@@ -63,6 +63,14 @@ double octrope_minrad(plCurve *L,
   octrope_error_num = octrope_error_str[0] = 0;
   plc_fix_wrap(L);
   if (num_min_rad_locs != NULL) *num_min_rad_locs = 0;
+
+  /* If we are recording the locations within epsilon of the minimum, we find 
+     the minimum first. Otherwise, locations which turn out not to be of interest
+     could fill the list and keep out ones which are. */
+
+  if (num_min_rad_locs != NULL && !(cutoff > 0)) {
+    mr = octrope_minrad(L,0,0,NULL,0,NULL);
+  }
   
   /* Now we work. */
 
-- 
2.43.0


From 25a9de835c44d9908f9dc76511d1eae0db04f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:07 +0000
Subject: [PATCH 054/139] fix: octrope_struts does not lose struts when the
 list is full of ones which are dropped later

---
 src/octrope.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/octrope.c b/src/octrope.c
index 36b3408..c8b65c8 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -1364,6 +1364,9 @@ void cleanup_strutlist(octrope_strut *st, int *strut_count,
 #define v_neq(A,B) (A.c[0] != B.c[0] || A.c[1] != B.c[1] || A.c[2] != B.c[2])
 #define final_pv(Pl,vertex) (Pl.open && vertex == Pl.nv - 1)
 #define dist_up_bound ((cutoff > 0) ? cutoff : *shortest+epsilon)
+/* Set when a strut had to be thrown out to make room for another one. */
+static int struts_thrown_out;
+
 /*
  * Take a box and either check for struts with those edges contained in it
  * (if it is a leaf node) or send the sub_boxes off to be checked.  Called
@@ -1477,6 +1480,7 @@ void check_boxes(const plCurve *L, box *B, plc_vector verts[3],
                 }
 #endif
                 st_ptr = st;
+                struts_thrown_out = true;
               }
             }
             st_ptr->component[0] = bo_me->component;
@@ -1671,6 +1675,10 @@ int octrope_struts(plCurve *L,
   /* Mark the strut list as empty */
   strut_count = 0;
 
+  struts_thrown_out = false;
+
+search:
+
   /* Don't check first edge as struts can only be *
    * from an edge to one before it.               */
   for (edge = num_edges - 1; edge > 0; edge--) { 
@@ -1688,6 +1696,13 @@ int octrope_struts(plCurve *L,
   if (sl_size > 0 && strut_count > 0) {
     cleanup_strutlist(strutlist,&strut_count,
       (cutoff > 0) ? cutoff : short_strut + epsilon);
+    /* If we threw out struts, but have room for them now, search again. Knowing *
+     * short_strut, we won't fill the list with struts which are too long.       */
+    if (struts_thrown_out && cutoff == 0 && strut_count < sl_size) {
+      struts_thrown_out = false;
+      strut_count = 0;
+      goto search;
+    }
   }
 
 #ifdef DEBUG
-- 
2.43.0


From e89e1b4ca309078f8ae18017ea00f297005eacff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:34 +0000
Subject: [PATCH 055/139] fix: octrope_strutfile_read refuses a missing keyword
 and negative component or vertex numbers

---
 src/octrope.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index c8b65c8..355ecfb 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2143,7 +2143,8 @@ void octrope_strutfile_read(plCurve *L,
   /* First, we check for the 'STRUTS' keyword. */
   
   octrope_error_num = octrope_error_str[0] = 0;
-  if (fscanf(file," STRUTS ") == EOF) {
+  i = -1;
+  if (fscanf(file," STRUTS%n",&i) == EOF || i == -1) {
     
     octrope_error_num = 20;
     sprintf(octrope_error_str,
@@ -2207,7 +2208,8 @@ void octrope_strutfile_read(plCurve *L,
 
     ts = (*strutlist)[i];
 
-    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc) {
+    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc ||
+        ts.component[0] < 0 || ts.component[1] < 0) {
 
       octrope_error_num = 66;
       sprintf(octrope_error_str,
@@ -2219,7 +2221,8 @@ void octrope_strutfile_read(plCurve *L,
     }
 
     if (ts.lead_vert[0] >= L->cp[ts.component[0]].nv ||
-        ts.lead_vert[1] >= L->cp[ts.component[1]].nv) {
+        ts.lead_vert[1] >= L->cp[ts.component[1]].nv ||
+        ts.lead_vert[0] < 0 || ts.lead_vert[1] < 0) {
 
       octrope_error_num = 67;
       sprintf(octrope_error_str,
-- 
2.43.0


From 0162d811a3c9ac585b77702b5d332947fadc8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:38 +0000
Subject: [PATCH 056/139] Revert "fix: octrope_minrad does not lose locations
 when the list is full of ones which are dropped later"

This reverts commit e20d50e9921d303be8e86746c19281f74cc97c0e.
---
 src/minrad.c | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/minrad.c b/src/minrad.c
index d579533..e3b2e11 100755
--- a/src/minrad.c
+++ b/src/minrad.c
@@ -63,14 +63,6 @@ double octrope_minrad(plCurve *L,
   octrope_error_num = octrope_error_str[0] = 0;
   plc_fix_wrap(L);
   if (num_min_rad_locs != NULL) *num_min_rad_locs = 0;
-
-  /* If we are recording the locations within epsilon of the minimum, we find 
-     the minimum first. Otherwise, locations which turn out not to be of interest
-     could fill the list and keep out ones which are. */
-
-  if (num_min_rad_locs != NULL && !(cutoff > 0)) {
-    mr = octrope_minrad(L,0,0,NULL,0,NULL);
-  }
   
   /* Now we work. */
 
-- 
2.43.0


From a501cb48ff9aca0e3acc6adf6fb291c9d33d828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:38 +0000
Subject: [PATCH 057/139] fix: octrope_minrad looks again for locations kept
 out by ones which were dropped later

---
 src/minrad.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/minrad.c b/src/minrad.c
index e3b2e11..832158e 100755
--- a/src/minrad.c
+++ b/src/minrad.c
@@ -57,6 +57,7 @@ double octrope_minrad(plCurve *L,
   double mrplus, mrminus, this_mr;
   double dot_prod,cross_prod_norm;
   int start,end;
+  int lost = 0;   /* Were locations left out because the list was full? */
 
   /* We start with some initializations. */
   
@@ -141,7 +142,7 @@ double octrope_minrad(plCurve *L,
 	      min_rad_locs[*num_min_rad_locs].compression = 0;
 	    
               (*num_min_rad_locs)++;
-            }
+            } else { lost = 1; }
           }
         }
 
@@ -173,7 +174,7 @@ double octrope_minrad(plCurve *L,
 	      min_rad_locs[*num_min_rad_locs].compression = 0;
   
               (*num_min_rad_locs)++;
-            }
+            } else { lost = 1; }
           }
         }
 
@@ -217,6 +218,12 @@ double octrope_minrad(plCurve *L,
       }
     }
     *num_min_rad_locs = k + 1;
+
+    /* If the list was full of locations which turned out not to be of interest, 
+       we may have left out ones which are. We know the bound now, so try again. */
+    if (lost && !(cutoff > 0) && *num_min_rad_locs < mr_size && mr + epsilon > 0) {
+      return octrope_minrad(L,mr + epsilon,epsilon,min_rad_locs,mr_size,num_min_rad_locs);
+    }
   }
   
   return mr;
-- 
2.43.0


From 243379c13bb3eda5a8516e06d6f410d37af68333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:24 +0000
Subject: [PATCH 058/139] fix: resampling a closed spline does not read past
 the last color

---
 src/splines.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index 251f6e7..6f91157 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -600,11 +600,12 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       /* And interpolate the colors */
       if (do_colors) {
+        int chi = (shi == spL->cp[comp].ns) ? 0 : shi; /* The last arc of a closed strand ends at the first sample. */
         L->cp[comp].clr[i] = plc_build_color(
-            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[shi].r,
-            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[shi].g,
-            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[shi].b,
-            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[shi].alpha);
+            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[chi].r,
+            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[chi].g,
+            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[chi].b,
+            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[chi].alpha);
       }
     }
 
-- 
2.43.0


From 879072ef8606f947984a03e3a1a915c0d93e4c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:43 +0000
Subject: [PATCH 059/139] fix: resampling an open spline does not fail when the
 last vertex lands beyond the end by roundoff

---
 src/splines.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index 6f91157..3e02431 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -584,6 +584,12 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       s = s_max*i/L->cp[comp].nv;
 
+      /* The last vertex of an open strand can land beyond the end by roundoff. */
+
+      if (spL->cp[comp].open && s > spL->cp[comp].svals[spL->cp[comp].ns-1]) {
+        s = spL->cp[comp].svals[spL->cp[comp].ns-1];
+      }
+
       /* Search to make sure that slo and shi bracket our current s.*/
 
       while (spL->cp[comp].svals[shi] <= s && 
-- 
2.43.0


From 9e02bd52fdfba310eee6b4c8fb9b277cfe191786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:54 +0000
Subject: [PATCH 060/139] fix: constraints of a resampled spline do not run
 past the end of the strand

---
 src/splines.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index 3e02431..cd1788d 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -657,6 +657,12 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 	  cst->num_verts = ceil(((cst_shi-cst_slo)/s_max)*L->cp[comp].nv);
 	  
 	}	
+
+	if (cst->num_verts > L->cp[comp].nv - cst->vert) { /* Don't run past the end of the strand */
+
+	  cst->num_verts = L->cp[comp].nv - cst->vert;
+
+	}
 	
       }
 
-- 
2.43.0


From a6ad70449b54cf88bfab2ed9bb113f33b8692e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:08 +0000
Subject: [PATCH 061/139] fix: plc_symmetrize updates the wrap-around vertices

---
 src/symmetries.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/symmetries.c b/src/symmetries.c
index ccd9d2d..ec24ce6 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -512,6 +512,7 @@ void plc_symmetrize(plCurve *L)
   }
 	  
   free(point_covered);
+  plc_fix_wrap(L);
 
 }
 
-- 
2.43.0


From e7ab6fa2268e07ef7f6fb2365438934dab2f169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:19 +0000
Subject: [PATCH 062/139] fix: the coordinate plane reflection group contains
 all products of the reflections

---
 src/symmetries.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/symmetries.c b/src/symmetries.c
index ec24ce6..717a8b2 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -411,36 +411,30 @@ plc_symmetry_group *plc_reflection_group(plCurve *L,plc_vector axis)
 
 plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
 
-/* Creates reflections over the x-y, y-z, and z-x planes. */
+/* Creates the group generated by reflections over the x-y, y-z, and z-x planes. */
 
 {
   plc_symmetry_group *build;
-  build = plc_symmetry_group_new(4);
+  build = plc_symmetry_group_new(8);
 
-  /* We now try to set up the group. */
+  /* We now try to set up the group. The bits of i tell us which coordinates to reflect. */
 
   plc_matrix A;
-  plc_identity_matrix(&A);
-  build->sym[0] = plc_build_symmetry(&A,L);
+  int i,j;
 
-  plc_reflection_matrix(plc_build_vect(1,0,0),&A);
-  build->sym[1] = plc_build_symmetry(&A,L);
+  for(i=0;i<8;i++) {
 
-  plc_reflection_matrix(plc_build_vect(0,1,0),&A);
-  build->sym[2] = plc_build_symmetry(&A,L);
-  
-  plc_reflection_matrix(plc_build_vect(0,0,1),&A);
-  build->sym[3] = plc_build_symmetry(&A,L);
+    plc_identity_matrix(&A);
+    for(j=0;j<3;j++) { if (i & (1 << j)) { A[j][j] = -1; } }
 
-  /* All elements are their own inverses */
+    build->sym[i] = plc_build_symmetry(&A,L);
+    build->inverse[i] = i;   /* All elements are their own inverses */
 
-  build->inverse[0] = 0; build->inverse[1] = 1; 
-  build->inverse[2] = 2; build->inverse[3] = 3;
+  }
 
   /* We need to scan and make sure the builds succeeded. */
 
-  int i;
-  for(i=0;i<2;i++) {
+  for(i=0;i<8;i++) {
 
     if (build->sym[i] == NULL) {
 
-- 
2.43.0


From e9e70e156d99b10cc1484f66d1870e09a4184753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:37 +0000
Subject: [PATCH 063/139] fix: pd_dihedral_ok and pd_cyclic_ok accept only
 rotations and reflections

---
 src/pd_cyclic.c   | 4 ++--
 src/pd_dihedral.c | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index 8825e68..c86083d 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -85,7 +85,7 @@ char  *pd_print_cyclic(void *cyclicP)
 
   for(i=0;i<(c->n)-1;i++) {
 	
-    if (c->map[i] >= c->map[i+1] && !(c->map[i] == (c->n)-1 && c->map[i+1] == 0)) { can_id = false; }
+    if (c->map[i+1] != (c->map[i] + 1) % c->n) { can_id = false; }
       
   }
 
@@ -216,7 +216,7 @@ bool pd_cyclic_ok(void *cyclicP)
 
   for(i=0;i<(c->n)-1;i++) {
 
-    if (c->map[i] >= c->map[i+1] && !(c->map[i] == (c->n)-1 && c->map[i+1] == 0)) { 
+    if (c->map[i+1] != (c->map[i] + 1) % c->n) { 
 
       return pd_error(SRCLOC,"%CYCLIC has isn't a rotation.\n",NULL,c);
 
diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index c57d274..98a7006 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -93,7 +93,7 @@ char  *pd_print_dihedral(void *dihedralP)
 
     for(i=0;i<(d->n)-1;i++) {
 	
-      if (d->map[i] >= d->map[i+1] && !(d->map[i] == (d->n)-1 && d->map[i+1] == 0)) { can_id = false; }
+      if (d->map[i+1] != (d->map[i] + 1) % d->n) { can_id = false; }
       
     }
 
@@ -108,7 +108,7 @@ char  *pd_print_dihedral(void *dihedralP)
     
     for(i=0;i<(d->n)-1;i++) { 
       
-      if (d->map[i] <= d->map[i+1] && !(d->map[i] == 0 && d->map[i+1] == (d->n) - 1)) { can_id = false; }
+      if (d->map[i] != (d->map[i+1] + 1) % d->n) { can_id = false; }
       
     }
     
@@ -282,7 +282,7 @@ bool pd_dihedral_ok(void *dihedralP)
 
     for(i=0;i<(d->n)-1;i++) { 
 
-      if (d->map[i] <= d->map[i+1] && !(d->map[i] == 0 && d->map[i+1] == (d->n) - 1)) {
+      if (d->map[i] != (d->map[i+1] + 1) % d->n) {
 
 	return pd_error(SRCLOC,"%DIHEDRAL has negative orientation but isn't a reflection.\n",NULL,d);
 
@@ -294,7 +294,7 @@ bool pd_dihedral_ok(void *dihedralP)
 
     for(i=0;i<(d->n)-1;i++) {
 
-      if (d->map[i] >= d->map[i+1] && !(d->map[i] == (d->n)-1 && d->map[i+1] == 0)) { 
+      if (d->map[i+1] != (d->map[i] + 1) % d->n) { 
 
 	return pd_error(SRCLOC,"%DIHEDRAL has positive orientation but isn't a rotation.\n",NULL,d);
 
-- 
2.43.0


From 2b4f2dca98cb8b1a9d86106710fb9e6e0fe86ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:58 +0000
Subject: [PATCH 064/139] fix: pd_perm_ok does not read past the end of the
 precomputed permutations

---
 src/pd_perm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pd_perm.c b/src/pd_perm.c
index 80fa60b..2c58d25 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -195,9 +195,9 @@ bool pd_perm_ok(void *permP)
 
   if (perm->n <= PD_MAX_PC_PERM) { /* Check perm->pc_idx legal. */
 
-    if (perm->pc_idx > pd_nperms(perm)) {
+    if (perm->n > 0 && perm->pc_idx >= pd_nperms(perm)) {
 
-      return pd_error(SRCLOC,"%PERM precomputed idx # %d > # %d-element precomp perms == %d",NULL,
+      return pd_error(SRCLOC,"%PERM precomputed idx # %d >= # %d-element precomp perms == %d",NULL,
 		      perm,perm->pc_idx,pd_nperms(perm));
 
     }
-- 
2.43.0


From 720eabda7bf30ab8abd5e8d14b103b18feb38da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:28 +0000
Subject: [PATCH 065/139] fix: printing a long permutation, dihedral or cyclic
 element does not write past the buffer

---
 src/pd_cyclic.c   | 4 ++--
 src/pd_dihedral.c | 4 ++--
 src/pd_perm.c     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index c86083d..89c1f1c 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -111,11 +111,11 @@ char  *pd_print_cyclic(void *cyclicP)
     for(i=0;i<c->n && chars_ptd < bufsize;i++) {
 
       chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d",c->map[i]); 
-      if (i != c->n-1) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
+      if (i != c->n-1 && chars_ptd < bufsize) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
 
     }
 
-    if (chars_ptd > bufsize) { 
+    if (chars_ptd >= bufsize) { 
 
       snprintf(buf,bufsize,"[CYCLIC > %d CHARS]",(int)(bufsize));
 
diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index 98a7006..db21ec5 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -136,11 +136,11 @@ char  *pd_print_dihedral(void *dihedralP)
     for(i=0;i<d->n && chars_ptd < bufsize;i++) {
 
       chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d",d->map[i]); 
-      if (i != d->n-1) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
+      if (i != d->n-1 && chars_ptd < bufsize) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
 
     }
 
-    if (chars_ptd > bufsize) { 
+    if (chars_ptd >= bufsize) { 
 
       snprintf(buf,bufsize,"[DIHEDRAL > %d CHARS]",(int)(bufsize));
 
diff --git a/src/pd_perm.c b/src/pd_perm.c
index 2c58d25..69594e7 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -369,11 +369,11 @@ char *pd_print_perm(void *permP)
     for(i=0;i<perm->n && chars_ptd < bufsize;i++) {
 
       chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd,"%d",perm->map[i]); 
-      if (i != perm->n-1) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
+      if (i != perm->n-1 && chars_ptd < bufsize) { chars_ptd += snprintf(buf + chars_ptd,bufsize-chars_ptd," "); }
 
     }
 
-    if (chars_ptd > bufsize) { 
+    if (chars_ptd >= bufsize) { 
 
       snprintf(buf,bufsize,"[PERM > %d CHARS]",(int)(bufsize));
 
-- 
2.43.0


From b62dc8d364f8fff75c8880f77843ea31b8c4f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:28 +0000
Subject: [PATCH 066/139] fix: pd_multidx_ok accepts a multi-index with no
 objects

---
 src/pd_multidx.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/pd_multidx.c b/src/pd_multidx.c
index a8f865a..a3aaecd 100644
--- a/src/pd_multidx.c
+++ b/src/pd_multidx.c
@@ -174,12 +174,7 @@ bool  pd_multidx_ok(pd_multidx_t *idx)
 
   if (idx == NULL) { return true; }
 
-  if (idx->nobj == 0) { /* A trivial case; all buffers should be null. */
-
-    if (idx->obj != NULL || idx->i != NULL || idx->nvals != NULL) { return false; }
-    return true;
-
-  }
+  if (idx->nobj == 0) { return true; } /* A trivial case; there is nothing in the buffers. */
 
   if (idx->i == NULL || idx->nvals == NULL) { return false; }
 
-- 
2.43.0


From 496155f3ece4daffa9d6a7bc362ab427af46a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:25 +0000
Subject: [PATCH 067/139] fix: plc_random_equilateral_closed_polygon survives a
 degenerate triangle in the fan triangulation

---
 src/plcRandomPolygon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 13ab911..cd2dd5f 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -827,6 +827,8 @@ plCurve *fantriangulation_action_angle(int n,double *theta, double *d)
        the history of them, but we will need the current one. */
 
     double cos_alpha = (d[i-1]*d[i-1] + d[i]*d[i] - 1.0)/(2.0*d[i-1]*d[i]);
+    if (cos_alpha >  1.0) { cos_alpha =  1.0; } /* A degenerate triangle, up to roundoff */
+    if (cos_alpha < -1.0) { cos_alpha = -1.0; }
     double sin_alpha = sqrt(1 - cos_alpha*cos_alpha);
 
     /*
-- 
2.43.0


From a543b2c8d21aa38ecbca5e3516d7b28b8cefd72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:37 +0000
Subject: [PATCH 068/139] fix: plc_random_equilateral_closed_polygon does not
 give up on polygons with hundreds of edges

---
 src/plcRandomPolygon.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index cd2dd5f..e7315d8 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -891,6 +891,7 @@ plCurve *plc_random_equilateral_closed_polygon(gsl_rng *rng,int n)
   bool distances_ok;
   int i;
   int safety_check = 0;
+  int max_attempts = 10000000; /* The expected number of attempts is about n^(3/2)/8 */
 
   assert(n <= 3000);
   if (n > 3000) {
@@ -931,15 +932,15 @@ plCurve *plc_random_equilateral_closed_polygon(gsl_rng *rng,int n)
 
       safety_check++;
 
-    } while (!distances_ok && safety_check < 10000);
+    } while (!distances_ok && safety_check < max_attempts);
 
     /* Now we've generated distances up to d[n-3] without violating
        a sum condition. We still have to check that 0 <= d[n-3] <= 2,
        so that we can set d[n-2]=1 without violating an inequality. */
 
-  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < 10000);
+  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < max_attempts);
 
-  assert(safety_check < 10000);
+  assert(safety_check < max_attempts);
 
   /* We can now set the last distance to be 1.0 */
 
-- 
2.43.0


From fd38ed02cf3d2741e5d4fd88fb83947b79012219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:37 +0000
Subject: [PATCH 069/139] fix: plc_loop_closure closes components other than
 the first

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index e7315d8..b1ac739 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1242,7 +1242,7 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
   assert(newVerts != NULL);
 
   for(vt=0;vt<openL->cp[cp].nv;vt++) { newVerts[vt] = openL->cp[cp].vt[vt]; }
-  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[cp].vt[ca_vt]; }
+  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[0].vt[ca_vt]; }
 
   assert(ca_vt == closureArc->cp[0].nv-1 && vt == nEdges); /* These should finish at the same time */
 
-- 
2.43.0


From 5c2a2c71d0a8a0254812108a25b0e8166a7260b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:51 +0000
Subject: [PATCH 070/139] fix: plc_is_sap reports curves that are not
 self-avoiding

---
 src/plcRandomSap.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/plcRandomSap.c b/src/plcRandomSap.c
index 2894ed3..33ce6de 100644
--- a/src/plcRandomSap.c
+++ b/src/plcRandomSap.c
@@ -166,11 +166,11 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
-		       
-		return false;
 
 	      }
-	      
+
+	      return false;
+
 	    }
 	    
 	  }
@@ -183,14 +183,18 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 	  
 	  for(vt2=0;vt2<L->cp[cp2].nv;vt2++) {
 	    
-	     if (verbose) {
+	    if (plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]) < 1.0-1e-10) {
+
+	      if (verbose) {
 
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
-		       
-		return false;
 
-	     }
+	      }
+
+	      return false;
+
+	    }
 
 	  }
 
-- 
2.43.0


From 4502adc141a71e6d3d2fa5dfe99f2547356a28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:05 +0000
Subject: [PATCH 071/139] fix: plc_loop_closure of an already closed arc of
 length 2 does not divide by zero

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index b1ac739..183d489 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1106,7 +1106,7 @@ plCurve *plc_random_ftc_internal(gsl_rng *r, int nEdges, double length, double f
   double ell;
   double aScale,bScale;
   
-  ell = 2.0*(ftc/length);  /* This is the failure to close for a polygon of length 2.0 */
+  ell = (length > 0) ? 2.0*(ftc/length) : 2.0;  /* This is the failure to close for a polygon of length 2.0 */
   aScale = sqrt(1 + ell/2.0);
   bScale = sqrt(1 - ell/2.0);
   
-- 
2.43.0


From 3d4ff6793132915559ebe32de62df6ae31557ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:50 +0000
Subject: [PATCH 072/139] fix: plc_loop_closure returns NULL if the only new
 edge would have the wrong length

---
 src/plcRandomPolygon.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 183d489..23a0aeb 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1213,6 +1213,13 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
 
   closureArc = plc_random_ftc_internal(r,nEdges - (openL->cp[cp].nv-1),closureLength,ftc,false);
 
+  if (closureArc == NULL) {
+
+    fprintf(stderr,"plc_loop_closure: Can't close gap of %g with one edge of length %g.\n",ftc,closureLength);
+    return NULL;
+
+  }
+
   /* There are two cases. If the original curve is already (numerically) closed, there is no operation here. */
   /* Otherwise, we'll need to rotate and translate the closureArc into place. */
 
-- 
2.43.0


From eb53ddac5b63af107292bb793da80b27c4101c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:45 +0000
Subject: [PATCH 073/139] fix: plc_loop_closure closes arcs which run along the
 positive x-axis

---
 src/plcRandomPolygon.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 23a0aeb..5ee3388 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1229,8 +1229,9 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
   if (ok) {
 
     plc_vector r_axis,x_axis = {{1,0,0}};
-    r_axis = plc_normalize_vect(plc_vect_sum(desiredFTCdir,x_axis),&ok);
-    if (!ok) { r_axis = plc_build_vect(0,1,0); }
+    r_axis = plc_vect_sum(desiredFTCdir,x_axis);
+    if (plc_norm(r_axis) > 1e-8) { r_axis = plc_normalize_vect(r_axis,&ok); }
+    else { /* The desired direction is (numerically) the negative x-axis. */ r_axis = plc_build_vect(0,1,0); }
     plc_rotate(closureArc,r_axis,pi);
 
   }
-- 
2.43.0


From 945f1419b016c3130bfa176ebf32f39815407597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:54 +0000
Subject: [PATCH 074/139] fix: ips_sigma_estimator_with_gammas counts the
 Gammas it returns when no Gamma is negative

With fewer than four samples the count came out as -1, and geyer_ips_value wrote
past the end of an empty buffer.
---
 src/geyer_estimators.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index 511330e..dade23e 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -127,9 +127,9 @@ double ips_sigma_estimator_with_gammas(double *zero_meaned_data, int m,
   if (Gammas != NULL) { 
     
     *Gammas = internal_Gammas;
-    *N = k-2; 
+    *N = done_flag ? k-2 : k-1;
     /* Remember that k got incremented on the way out of the loop when we detected the first negative,
-       AND that we wanted to throw that one out. */
+       AND that we wanted to throw that one out. (If we ran out of data first, there's none to throw out.) */
     
   } else { 
     
-- 
2.43.0


From 2b7b975d8c5b98b8fb21f3dd237e8cc208276af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:54 +0000
Subject: [PATCH 075/139] fix: geyer_ips_value does not read past the end of a
 buffer of size one

---
 src/geyer_estimators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index dade23e..7803b1e 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -780,7 +780,7 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
   /* Fill the Gamma array, working our way through until Gammas are
      no longer positive or until we run out of lagged dots to use. */
     
-  for(gips->Gamma[0] = littlegamma[0] + littlegamma[1],gips->N=1;
+  for(gips->Gamma[0] = littlegamma[0] + (gips->nldots > 1 ? littlegamma[1] : 0),gips->N=1;
       gips->Gamma[gips->N-1] > 0 && (2*gips->N)+1 < gips->nldots;
       gips->N++) { 
 
-- 
2.43.0


From 899866ec9f2191fc4281c03c420311ddbc4a3d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:54 +0000
Subject: [PATCH 076/139] fix: geyer_ips_value gives a finite error for
 negatively correlated or constant data beyond the buffer

---
 src/geyer_estimators.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index 7803b1e..4971103 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -788,12 +788,17 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
     
   }
 
-  if (gips->Gamma[gips->N-1] < 0) { gips->N--; *ok = true; } /* The last Gamma was negative. */
+  if (gips->Gamma[gips->N-1] <= 0) { gips->N--; *ok = true; } /* The last Gamma was not positive. */
   else { *ok = false; } /* We computed all of the Gammas that we could, but they are still positive! */
   /* Now we can actually compute the estimator. */
 
   gips->sigma = -littlegamma[0]; 
   for(i=0;i<gips->N;i++) { gips->sigma += 2*gips->Gamma[i]; }
+
+  /* As in ips_sigma_estimator_with_gammas, the sum can be negative if we are really far from 
+     convergence (or by roundoff if the data is constant). */
+  
+  if (gips->sigma < 0) { gips->sigma = littlegamma[0] > 0 ? littlegamma[0] : 0; }
   gips->sigma = sqrt(gips->sigma); 
   
   *error = 1.96 * gips->sigma / sqrt(gips->samples);
-- 
2.43.0


From ad611a8412f9fecf6e72ecff662dfd057c693047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:08 +0000
Subject: [PATCH 077/139] fix: the spiral and teeth triangulations of a
 triangle do not write past the empty chord system

---
 src/plcToricSymplecticTriangulation.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 8ea9482..ddbca5f 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -47,7 +47,9 @@ tsmcmc_triangulation_t tsmcmc_spiral_triangulation(int nedges)
   int i,cd;
   for(i=0;i<nedges;i++) { vert_active[i] = true; }
 
-  for(cd=0,chordsys[cd].vt[0] = 0,i=0;cd < nedges-3;cd++) { 
+  if (nedges > 3) { chordsys[0].vt[0] = 0; } /* A triangle has no chords */
+
+  for(cd=0,i=0;cd < nedges-3;cd++) { 
 
     /* Start assuming that chordsys[cd].vt[0] is set, and equal to i. */
     /* Scan forward until the next active vertex */
@@ -166,7 +168,9 @@ tsmcmc_triangulation_t tsmcmc_teeth_triangulation(int nedges)
   assert(chordsys != NULL);
   
   int chords_used;
-  chordsys[0].vt[0] = nedges-1; chordsys[0].vt[1] = 1; /* We start by skipping vertex 0. */
+  if (nedges > 3) { /* A triangle has no chords */
+    chordsys[0].vt[0] = nedges-1; chordsys[0].vt[1] = 1; /* We start by skipping vertex 0. */
+  }
   chords_used = 1;
 
   for(;chords_used < nedges-3;chords_used++) { 
-- 
2.43.0


From c62ec80d5fc5344a85da7c99b107600713d40f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:46 +0000
Subject: [PATCH 078/139] fix: tsmcmc logs the sample mean, not the sum divided
 by the step number

---
 src/plcToricSymplectic.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index fc1202b..7171b70 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1204,7 +1204,7 @@ double   tsmcmc_equilateral_expectation(gsl_rng *rng,double integrand(plCurve *L
 
 	char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+		i,configuration,ival,gips->samples > 0 ? (double)(gips->sample_sum/(long double)(gips->samples)) : 0.0);
 	fflush(run_params.logfile);
     }
 
@@ -1362,7 +1362,7 @@ double   tsmcmc_confined_equilateral_expectation(gsl_rng *rng,double integrand(p
 
       char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
       fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-	      i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+	      i,configuration,ival,gips->samples > 0 ? (double)(gips->sample_sum/(long double)(gips->samples)) : 0.0);
       fflush(run_params.logfile);
       free(configuration);
 
@@ -1524,7 +1524,7 @@ double   tsmcmc_fixed_ftc_expectation(gsl_rng *rng,double integrand(plCurve *L,
 
 	char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+		i,configuration,ival,gips->samples > 0 ? (double)(gips->sample_sum/(long double)(gips->samples)) : 0.0);
 	fflush(run_params.logfile);
     }
 
-- 
2.43.0


From fac4c9e7e03564224a292a3ad44258b43aaf0177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:46 +0000
Subject: [PATCH 079/139] fix: logging a polygon with many edges does not write
 past the buffer

---
 src/plcToricSymplectic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 7171b70..850f83c 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1071,7 +1071,8 @@ char    *tsmcmc_run_params_MathematicaForm(tsmcmc_run_parameters run_params)
 char    *tsmcmc_configuration_MathematicaForm(tsmcmc_triangulation_t T,double *edge_lengths,double *diagonal_lengths,double *dihedral_angles)
 {
 
-  char *ret = calloc(2048,sizeof(char));
+  /* Each number takes at most 16 characters (in %g form, with a comma), and the labels take fewer than 256. */
+  char *ret = calloc(256 + 16*(T.nedges + 2*T.ndiags),sizeof(char));
   assert(ret != NULL);
 
   sprintf(ret,
@@ -1206,6 +1207,7 @@ double   tsmcmc_equilateral_expectation(gsl_rng *rng,double integrand(plCurve *L
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
 		i,configuration,ival,gips->samples > 0 ? (double)(gips->sample_sum/(long double)(gips->samples)) : 0.0);
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
@@ -1526,6 +1528,7 @@ double   tsmcmc_fixed_ftc_expectation(gsl_rng *rng,double integrand(plCurve *L,
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
 		i,configuration,ival,gips->samples > 0 ? (double)(gips->sample_sum/(long double)(gips->samples)) : 0.0);
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
-- 
2.43.0


From 4577643759f2b05d206b4638df361a1305a3925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:46 +0000
Subject: [PATCH 080/139] fix: printing run parameters with a long log file
 name does not write past the buffer

---
 src/plcToricSymplectic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 850f83c..b22f5cc 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1050,7 +1050,7 @@ char    *tsmcmc_run_stats_MathematicaForm(tsmcmc_run_stats run_stats)
 char    *tsmcmc_run_params_MathematicaForm(tsmcmc_run_parameters run_params)
 
 {
-  char *ret = calloc(1024,sizeof(char));
+  char *ret = calloc(1024 + strlen(run_params.logfile_name),sizeof(char));
   assert(ret != NULL);
 
   sprintf(ret,
-- 
2.43.0


From c66a4d03e2cfe55c30d2a43e3c74010ea6abccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:07 +0000
Subject: [PATCH 081/139] fix: logging a triangle does not read diagonals that
 do not exist

---
 src/plcToricSymplectic.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index b22f5cc..789333e 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1084,12 +1084,12 @@ char    *tsmcmc_configuration_MathematicaForm(tsmcmc_triangulation_t T,double *e
   sprintf(ret+strlen(ret),"%g},",edge_lengths[i]);
 
   sprintf(ret+strlen(ret),"\"diagonal_lengths\"->{");
-  for(i=0;i<T.ndiags-1;i++) { sprintf(ret + strlen(ret),"%g,",diagonal_lengths[i]); }
-  sprintf(ret+strlen(ret),"%g},",diagonal_lengths[i]);
+  for(i=0;i<T.ndiags;i++) { sprintf(ret + strlen(ret),(i < T.ndiags-1) ? "%g," : "%g",diagonal_lengths[i]); }
+  sprintf(ret+strlen(ret),"},");
 
   sprintf(ret+strlen(ret),"\"dihedral_angles\"->{");
-  for(i=0;i<T.ndiags-1;i++) { sprintf(ret + strlen(ret),"%g,",dihedral_angles[i]); }
-  sprintf(ret+strlen(ret),"%g}}",dihedral_angles[i]);
+  for(i=0;i<T.ndiags;i++) { sprintf(ret + strlen(ret),(i < T.ndiags-1) ? "%g," : "%g",dihedral_angles[i]); }
+  sprintf(ret+strlen(ret),"}}");
 
   return ret;
 }
-- 
2.43.0


From ceab2ac51fb858383161032007541e1cbf855118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:57 +0000
Subject: [PATCH 082/139] fix: embedding a polygon with a flat triangle does
 not give vertices which are not numbers

---
 src/plcToricSymplecticTriangulation.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index ddbca5f..d32ba8c 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -650,7 +650,12 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
   
   double alpha;
 
-  alpha = acos((B*B + C*C - A*A)/(2.0*B*C));
+  double cosalpha;
+  cosalpha = (B*B + C*C - A*A)/(2.0*B*C);
+  if (cosalpha > 1.0)  { cosalpha = 1.0; }   /* By roundoff, if the triangle is (nearly) flat. */
+  if (cosalpha < -1.0) { cosalpha = -1.0; }
+
+  alpha = acos(cosalpha);
 
   *a = plc_build_vect(0,0,0);
   *b = plc_build_vect(C,0,0);
-- 
2.43.0


From 67836cf0dbb8e4c73168bc45c87a828631875cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:26 +0000
Subject: [PATCH 083/139] fix: moment polytope steps starting on the boundary
 do not leave the polytope

---
 src/plcToricSymplectic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 789333e..66a99f3 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -417,6 +417,8 @@ void     tsmcmc_apply_triangle_inequality(int chordA,chordtype_t typeA,
         -tsmcmc_chord_length(chordB,typeB,diagonal_lengths,edge_lengths)
         +tsmcmc_chord_length(chordC,typeC,diagonal_lengths,edge_lengths);
 
+  if (num > 0) { num = 0; } /* By roundoff, on the boundary of the polytope. Don't step further out. */
+
   denom = tsmcmc_variation(chordA,typeA,dv) + tsmcmc_variation(chordB,typeB,dv) - tsmcmc_variation(chordC,typeC,dv);
 
   if (!isfinite(num) || !isfinite(denom)) {
-- 
2.43.0


From 9dfa1a7093bcc82eb50f25a02746af46287bc9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:26 +0000
Subject: [PATCH 084/139] fix: a flat triangle is embedded even if roundoff
 violates its triangle inequality

---
 src/plcToricSymplecticTriangulation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index d32ba8c..c12285a 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -604,7 +604,9 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
      the triangle. */
 
   if (A < 0 || B < 0 || C < 0) { return false; }
-  if (A + B < C || B + C < A || C + A < B) { return false; }
+
+  double slop = 1e-12*(A+B+C); /* The triangle may be flat, with inequalities violated by roundoff. */
+  if (A + B < C - slop || B + C < A - slop || C + A < B - slop) { return false; }
 
   /* Now we need to worry about various special cases. */
 
-- 
2.43.0


From bfd0e25ad21c54389e2e82834f97632a445a2246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:26 +0000
Subject: [PATCH 085/139] fix: embedding a polygon with a diagonal of length
 zero does not give vertices which are not numbers

---
 src/plcToricSymplecticTriangulation.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index c12285a..184346f 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -704,16 +704,24 @@ bool tsmcmc_embed_polygon_worker(plCurve *L,tsmcmc_triangulation_t T,
 							 T.triangles[tri].parent_type)]);
   /* Keep in mind that the parent chord is stored in reverse orientation. */
 
-  bool ok;
-  frame[1] = plc_normalize_vect(frame[1],&ok);
+  bool ok = (plc_norm(frame[1]) >= 1e-8); /* Shorter chords are taken to have length zero below. */
   double PI = 3.141592653589793;
 
   if (!ok) {
 
     current_normal = parent_normal;
 
+    /* Any direction normal to parent_normal will do: cross with the coordinate axis which is farthest from it. */
+
+    plc_vector axis = {{0,0,0}};
+    int c, far = 0;
+    for(c=1;c<3;c++) { if (fabs(parent_normal.c[c]) < fabs(parent_normal.c[far])) { far = c; } }
+    axis.c[far] = 1.0;
+    frame[1] = plc_normalize_vect(plc_cross_prod(parent_normal,axis),NULL);
+
   } else { /* Use the dihedral data. */
 
+    frame[1] = plc_normalize_vect(frame[1],&ok);
     frame[2] = plc_cross_prod(frame[0],frame[1]);
 
     if (fabs(plc_norm(frame[2]) - 1.0) >= 1e-8) {
-- 
2.43.0


From 68bde26c5a8ac1a8a89c2ad898b21e9d333ed12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:06 +0000
Subject: [PATCH 086/139] fix: nplc_sq_dist returns the squared distance, not
 the dot product

---
 src/nvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector.c b/src/nvector.c
index a326ddd..535ac87 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -205,7 +205,7 @@ inline double nplc_sq_dist(nplc_vector A, nplc_vector B) {
   int i,n;
   double ret=0;
   n = nplc_vect_dim(A,B);
-  for(i=0;i<n;i++) { ret += A.c[i] * B.c[i]; }
+  for(i=0;i<n;i++) { ret += (A.c[i] - B.c[i])*(A.c[i] - B.c[i]); }
   return ret;
 }
 
-- 
2.43.0


From eefcd78754009a1bf6969c749f3d34c05af9a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:06 +0000
Subject: [PATCH 087/139] fix: nplc_vmadd does not overwrite its first argument

---
 src/nvector.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/nvector.c b/src/nvector.c
index 535ac87..c163755 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -353,10 +353,7 @@ inline nplc_vector nplc_vlincomb(double a,nplc_vector A,
 
 inline nplc_vector nplc_vmadd(nplc_vector A, double s, nplc_vector B) {
  
-  int i,n;
-  n = nplc_vect_dim(A,B);
-  for(i=0;i<n;i++) { A.c[i] += s*B.c[i]; }
-  return A;
+  return nplc_vlincomb(1.0,A,s,B);
 
 }
 
-- 
2.43.0


From cea1fd8a06ccdfe9e13e69883f54a966ec61d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:06 +0000
Subject: [PATCH 088/139] fix: nplc_random_vect does not give up in high
 dimensions

---
 src/nvector.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nvector.c b/src/nvector.c
index c163755..b42af18 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -317,11 +317,15 @@ nplc_vector nplc_random_vect(int n)
 
     for(i=0;i<n;i++) {
       
-      ret.c[i] = 2*(double)(rand())/(double)(RAND_MAX) - 1;
+      /* Independent normal variates, since points of a high-dimensional
+         cube almost never lie in the unit ball. */
+
+      ret.c[i] = sqrt(-2*log(((double)(rand()) + 1)/((double)(RAND_MAX) + 1)))*
+	cos(2*3.141592653589793*(double)(rand())/((double)(RAND_MAX) + 1));
     
     }
 
-    if (nplc_norm(ret) < 1.0 && nplc_norm(ret) > 0.1) {
+    if (nplc_norm(ret) > 0.1) {
 
       nrm = nplc_normalize_vect(ret,NULL);
       nplc_vect_free(&ret);
-- 
2.43.0


From 20e2dfa32f5d8247ab1ef378e38e2f35fefcd8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:06 +0000
Subject: [PATCH 089/139] fix: nplc_write does not cut vertices off after 80
 characters

---
 src/nplCurve.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 309087e..3d3edac 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -764,8 +764,6 @@ void nplc_write(FILE *outfile, nplCurve * const L) {
   int i,j;                  /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
-  char outstr2[80] = "";    /* Again for wrapping */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
   nplc_constraint *cst;  /* Current constraint */
@@ -863,17 +861,14 @@ void nplc_write(FILE *outfile, nplCurve * const L) {
   for (i=0; i<L->nc; i++) {
     fprintf(outfile,"# Component %d\n",i);
     for (j=0; j<L->cp[i].nv; j++) {
-      (void)snprintf(outstr,sizeof(outstr),"%s",
-          nplc_vect_clist(L->cp[i].vt[j]));
+      fprintf(outfile,"%s",nplc_vect_clist(L->cp[i].vt[j]));
       if (cst_nums[i][j] != 0) {
-        strcpy(outstr2,outstr);
-        (void)snprintf(outstr,sizeof(outstr),
-                       "%s # Cst: %d",outstr2,cst_nums[i][j]);
+        fprintf(outfile," # Cst: %d",cst_nums[i][j]);
       }
       /* Here is where we will eventually write out the quantifiers, wrapping
        * as necessary */
-      /* Now complete the string. */
-      fprintf(outfile,"%s\n",outstr);
+      /* Now complete the line. */
+      fprintf(outfile,"\n");
     }
   }
 
-- 
2.43.0


From 8767943558eeb91b15167a6d676af150a363e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:06 +0000
Subject: [PATCH 090/139] fix: nplc_component sets the wrap-around vertices

---
 src/nplCurve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 3d3edac..4d7d7d6 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -422,6 +422,8 @@ nplCurve *nplc_component(int cp,nplCurve *L)
     Lcp->cp[0].clr[i] = L->cp[cp].clr[i];
 
   }
+
+  nplc_fix_wrap(Lcp);
   
   return Lcp;
 
-- 
2.43.0


From 0e0259e7006ac4340a4ee48b28fc094c20821389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:06 +0000
Subject: [PATCH 091/139] fix: nplc_read accepts only files which start with
 the (N)VECT keyword

---
 src/nplCurve.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 4d7d7d6..68b337c 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -1157,6 +1157,7 @@ void nplc_fix_wrap(nplCurve * const L) {
   nplc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
+  char keyword[5];
 
   assert(file != NULL);
   assert(error_str_len > 0);
@@ -1164,21 +1165,20 @@ void nplc_fix_wrap(nplCurve * const L) {
   *error_num = 0;
 
   /* First, we check for the '(N)VECT' keyword. */
-  if (fscanf(file,"%dVECT ",&dim) != 1) {
+  if (fscanf(file," %d",&dim) != 1) {
 
     fseek(file,0,SEEK_SET); /* Rewind and try again- this might be an ordinary VECT file.*/
-
-    if (fscanf(file," VECT ") == EOF) {
-      *error_num = NPLC_E_NO_VECT;
-      (void)snprintf(error_str,error_str_len,
-		     "nplc_read: Couldn't find (N)VECT keyword.\n");
-      return NULL;
-    }
-
     dim = 3;
 
   }
 
+  if (fscanf(file," %4s",keyword) != 1 || strcmp(keyword,"VECT") != 0 || dim < 1) {
+    *error_num = NPLC_E_NO_VECT;
+    (void)snprintf(error_str,error_str_len,
+		   "nplc_read: Couldn't find (N)VECT keyword.\n");
+    return NULL;
+  }
+
   /* Now we read the three integers giving vertices, components, and colors. */
 
   if (scanints(file,3,&ncomp,&nverts,&ncolors) != 3) {
-- 
2.43.0


From 8994778a90769298711a84bec48fbf0ae11f9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:38 +0000
Subject: [PATCH 092/139] fix: nplc_read does not abort on components with no
 vertices or an illegal number of colors

---
 src/nplCurve.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 68b337c..c625a72 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -37,6 +37,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 
 #include <stdarg.h>
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 #include <assert.h>
 
@@ -1218,6 +1219,15 @@ void nplc_fix_wrap(nplCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (nvarray[i] == 0 || nvarray[i] == INT_MIN) {
+      *error_num = NPLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "nplc_read: Component %d has an illegal number of vertices.\n",i);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
     /* A negative number of vertices indicates a CLOSED component. */
     open[i] = (nvarray[i] >= 0);
     nvarray[i] = abs(nvarray[i]);
@@ -1237,6 +1247,16 @@ void nplc_fix_wrap(nplCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (ccarray[i] < 0 || ccarray[i] > nvarray[i]) {
+      *error_num = NPLC_E_BAD_CLR_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "nplc_read: Component %d has %d colors and %d vertices.\n",
+          i,ccarray[i],nvarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
-- 
2.43.0


From ae3b5ad3aa06efab04659ef5389f7c5875552196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 093/139] fix: nplc_read reads the constraints nplc_write
 writes, in any dimension, without crashing

---
 src/nplCurve.c | 139 +++++++++++++++++++++----------------------------
 1 file changed, 58 insertions(+), 81 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index c625a72..c0b13c9 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -842,14 +842,14 @@ void nplc_write(FILE *outfile, nplCurve * const L) {
       cst_num++;
       if (cst->kind == nfixed) {
         fprintf(outfile, "# Constraint %d Fixed %s\n", cst_num,
-          nplc_vect_print(cst->vect[0]));
+          nplc_vect_clist(cst->vect[0]));
       } else if (cst->kind == nline) {
         fprintf(outfile, "# Constraint %d Line %s ", cst_num,
-          nplc_vect_print(cst->vect[0]));
-	fprintf(outfile," %s\n", nplc_vect_print(cst->vect[1]));
+          nplc_vect_clist(cst->vect[0]));
+	fprintf(outfile," %s\n", nplc_vect_clist(cst->vect[1]));
       } else if (cst->kind == nplane) {
-      fprintf(outfile, "# Constraint %d Plane %s %g\n", cst_num,
-          nplc_vect_print(cst->vect[0]), cst->vect[1].c[0]);
+      fprintf(outfile, "# Constraint %d Plane %s %.16g\n", cst_num,
+          nplc_vect_clist(cst->vect[0]), cst->vect[1].c[0]);
       }
     }
     /* Now mark it down in the list */
@@ -1154,7 +1154,7 @@ void nplc_fix_wrap(nplCurve * const L) {
   int ds; /* Doubles scanned */
   /*@temp@*/ char *place;
   char *space = " ";
-  size_t parsed;
+  size_t parsed, comment_len;
   nplc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
@@ -1284,6 +1284,7 @@ void nplc_fix_wrap(nplCurve * const L) {
   while ((place = strcasestr(comment,"Constraint ")) != NULL) {
     /* Move the word "Constraint to the beginning of the string */
     memmove(comment,place,strlen(place)+1);
+    comment_len = strlen(comment);
     /* Now start tokenizing */
     place = strtok(comment, space); /* "Constraint" */
 #define place_not_null \
@@ -1298,108 +1299,80 @@ void nplc_fix_wrap(nplCurve * const L) {
       return NULL; \
     }
     place_not_null;
-    parsed = strlen(place)+1;
     place = strtok(NULL, space); /* The constraint number */
     place_not_null;
-    parsed += strlen(place)+1;
     if (sscanf(place,"%d",&cst_num) != 1 ||
         cst_num < 1) {
       nplc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = NPLC_E_BAD_CST_NUM;
       (void)snprintf(error_str,error_str_len,
         "nplc_read: Couldn't parse constraint number from '%s'.\n",place);
+      free(comment);
+      return NULL;
+    }
+    if (cst_num >= 100000) { /* Surely not a real constraint number. */
+      nplc_free(L);
+      assert(cst_list->next == NULL);
+      free(cst_list);
+      *error_num = NPLC_E_BAD_CST_NUM;
+      (void)snprintf(error_str,error_str_len,
+        "nplc_read: Constraint number %d is too large.\n",cst_num);
+      free(comment);
       return NULL;
     }
     if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) % 10)); /* Allocate by 10s */
+      size_t old_len = cst_list_len;
+      cst_list_len = (size_t)(10*((cst_num+11) / 10)); /* Allocate by 10s */
       assert(cst_list->next == NULL);
       cst_list = realloc(cst_list,cst_list_len*sizeof(nplc_constraint));
       assert(cst_list != NULL);
+      memset(&cst_list[old_len],0,
+             (cst_list_len-old_len)*sizeof(nplc_constraint));
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
-    parsed += strlen(place)+1;
-    if (strcasestr(place,"Fixed") != NULL) {
-      cst_list[cst_num].kind = nfixed;
-      if (sscanf(&comment[parsed],"%lf %lf %lf",
-            &cst_list[cst_num].vect[0].c[0],
-            &cst_list[cst_num].vect[0].c[1],
-            &cst_list[cst_num].vect[0].c[2]) != 3) {
-        nplc_free(L);
-        assert(cst_list->next == NULL);
-        free(cst_list);
-        free(comment);
-        *error_num = NPLC_E_BAD_CST_NUMS;
-        (void)snprintf(error_str,error_str_len,
-          "nplc_read: Bad numbers for constraint %d.\n",cst_num);
-        return NULL;
-      }
-      cst_list[cst_num].vect[1] = nplc_build_vect(0.0, 0.0, 0.0);
-      for (i=0; i < 3; i++) {
-        place = strtok(NULL, space); /* Step over the numbers */
-        place_not_null;
-        parsed += strlen(place)+1;
+    if (strcasestr(place,"Fixed") != NULL ||
+        strcasestr(place,"Line")  != NULL ||
+        strcasestr(place,"Plane") != NULL) {
+      int nvals; /* Numbers which define this kind of constraint */
+      if (strcasestr(place,"Fixed") != NULL) {
+        cst_list[cst_num].kind = nfixed; nvals = dim;
+      } else if (strcasestr(place,"Line") != NULL) {
+        cst_list[cst_num].kind = nline;  nvals = 2*dim;
+      } else {
+        cst_list[cst_num].kind = nplane; nvals = dim+1;
       }
-      memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
-    } else if (strcasestr(place,"Line") != NULL) {
-      cst_list[cst_num].kind = nline;
-      if (sscanf(&comment[parsed],"%lf %lf %lf %lf %lf %lf",
-            &cst_list[cst_num].vect[0].c[0],
-            &cst_list[cst_num].vect[0].c[1],
-            &cst_list[cst_num].vect[0].c[2],
-            &cst_list[cst_num].vect[1].c[0],
-            &cst_list[cst_num].vect[1].c[1],
-            &cst_list[cst_num].vect[1].c[2]) != 6) {
-        nplc_free(L);
-        assert(cst_list->next == NULL);
-        free(cst_list);
-        free(comment);
-        *error_num = NPLC_E_BAD_CST_NUMS;
-        (void)snprintf(error_str,error_str_len,
+      cst_list[cst_num].vect[0] = nplc_vect_new(dim);
+      cst_list[cst_num].vect[1] = nplc_vect_new(dim);
+      for (i=0; i < nvals; i++) {
+        place = strtok(NULL, space);
+        if (place == NULL ||
+            sscanf(place,"%lf",
+                   &cst_list[cst_num].vect[i/dim].c[i%dim]) != 1) {
+          nplc_free(L);
+          assert(cst_list->next == NULL);
+          free(cst_list);
+          free(comment);
+          *error_num = NPLC_E_BAD_CST_NUMS;
+          (void)snprintf(error_str,error_str_len,
             "nplc_read: Bad numbers for constraint %d.\n",cst_num);
-        return NULL;
-      }
-      for (i=0; i < 6; i++) {
-        place = strtok(NULL, space); /* Step over the numbers */
-        place_not_null;
-        parsed += strlen(place)+1;
-      }
-      memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
-    } else if (strcasestr(place,"Plane") != NULL) {
-      cst_list[cst_num].kind = nplane;
-      if (sscanf(&comment[parsed],"%lf %lf %lf %lf",
-            &cst_list[cst_num].vect[0].c[0],
-            &cst_list[cst_num].vect[0].c[1],
-            &cst_list[cst_num].vect[0].c[2],
-            &cst_list[cst_num].vect[1].c[0]) != 4) {
-        nplc_free(L);
-        assert(cst_list->next == NULL);
-        free(cst_list);
-        free(comment);
-        *error_num = NPLC_E_BAD_CST_NUMS;
-        (void)snprintf(error_str,error_str_len,
-          "nplc_read: Bad numbers for constraint %d.\n",cst_num);
-        return NULL;
-      }
-      cst_list[cst_num].vect[1].c[1] = 0.0;
-      cst_list[cst_num].vect[1].c[2] = 0.0;
-      for (i=0; i < 4; i++) {
-        place = strtok(NULL, space); /* Step over the numbers */
-        place_not_null;
-        parsed += strlen(place)+1;
+          return NULL;
+        }
       }
+      /* Go on with the text after the last number. */
+      parsed = (size_t)(place - comment) + strlen(place) + 1;
+      if (parsed > comment_len) { parsed = comment_len; }
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else {
       nplc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = NPLC_E_BAD_CST_KIND;
       (void)snprintf(error_str,error_str_len,
         "nplc_read: Unrecognized constraint kind '%s'.\n",place);
+      free(comment);
       return NULL;
     }
   }
@@ -1429,7 +1402,9 @@ void nplc_fix_wrap(nplCurve * const L) {
         memmove(comment,place,strlen(place)+1);
         place = strtok(comment,space); /* Cst: */
         place_not_null;
-        if (sscanf(&comment[5],"%d",&cst_num) != 1) {
+        if (sscanf(&comment[5],"%d",&cst_num) != 1 ||
+            cst_num < 0 || cst_num >= (int)cst_list_len ||
+            (cst_num > 0 && cst_list[cst_num].kind == nunconstrained)) {
           nplc_free(L);
           assert(cst_list->next == NULL);
           free(cst_list);
@@ -1441,7 +1416,9 @@ void nplc_fix_wrap(nplCurve * const L) {
         }
       }
       free(comment);
-      if (cst_num != prev_cst_num) {
+      /* A fixed constraint never extends over more than one vertex. */
+      if (cst_num != prev_cst_num ||
+          (cst_num != 0 && cst_list[cst_num].kind == nfixed)) {
         if (prev_cst_num != 0) {
           nplc_set_constraint(L, i, prev_cst_vert, j - prev_cst_vert,
               cst_list[prev_cst_num].kind, cst_list[prev_cst_num].vect);
@@ -1452,7 +1429,7 @@ void nplc_fix_wrap(nplCurve * const L) {
     }
     if (prev_cst_num != 0) {
       nplc_set_constraint(L, i, prev_cst_vert, j - prev_cst_vert,
-          cst_list[cst_num].kind, cst_list[cst_num].vect);
+          cst_list[prev_cst_num].kind, cst_list[prev_cst_num].vect);
     }
   }
   /* Now set the "wrap-around" vertices */
-- 
2.43.0


From af89b2c910f03c2583fa6adf8ff9d15b781cb83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:04 +0000
Subject: [PATCH 094/139] fix: nplc_write gives a repeated constraint the
 number of its first occurrence

---
 src/nplCurve.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index c0b13c9..4f9a91d 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -835,7 +835,11 @@ void nplc_write(FILE *outfile, nplCurve * const L) {
         found = true;
       }
     }
-    if (!found) {
+    if (found) {
+      /* The newest constraint is first in the list, so the number of this
+         one is the number of list entries from here on. */
+      for (cst_num = 1; cst2 != NULL; cst2 = cst2->next) { cst_num++; }
+    } else {
       /* It's a new one, add it to the list */
       cst_list = new_constraint(cst->kind, cst->vect, cst->cmp, cst->vert,
                                 cst->num_verts, cst_list);
-- 
2.43.0


From 398efa04f57fc8e0735c34a2ea1b0e0e27635f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:53 +0000
Subject: [PATCH 095/139] fix: loading 31 keys into an empty Judy array does
 not overrun the allocated leaf

---
 judy/src/JudyCommon/JudyInsArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/judy/src/JudyCommon/JudyInsArray.c b/judy/src/JudyCommon/JudyInsArray.c
index f8e361f..dc371fb 100644
--- a/judy/src/JudyCommon/JudyInsArray.c
+++ b/judy/src/JudyCommon/JudyInsArray.c
@@ -281,7 +281,7 @@ const   Word_t *  const PValue, // list of corresponding values.
         if (Count == 0) return(1);              // *PPArray remains null.
 
         {
-            Pjlw      = j__udyAllocJLW(Count + 1);
+            Pjlw      = j__udyAllocJLW(Count);
                         JU_CHECKALLOC(Pjlw_t, Pjlw, JERRI);
             *PPArray  = (Pvoid_t) Pjlw;
             Pjlw[0]   = Count - 1;              // set pop0.
-- 
2.43.0


From a0c02fdb7129de13682509b1e7d46dfd47762d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:58 +0000
Subject: [PATCH 096/139] fix: gp_CreateRandomGraphEx does not add more edges
 than requested

---
 planarity/c/graphUtils.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/planarity/c/graphUtils.c b/planarity/c/graphUtils.c
index 1862e51..cb301af 100644
--- a/planarity/c/graphUtils.c
+++ b/planarity/c/graphUtils.c
@@ -1259,11 +1259,11 @@ int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
 	     {
              if (last != v)
              {
-		         if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+		         if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
 			         return NOTOK;
              }
 
-		     if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+		     if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
 			     return NOTOK;
 
 		     v = last = c;
@@ -1278,7 +1278,7 @@ int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
 			     p = gp_GetVertexParent(theGraph, v);
 			     if (gp_IsVertex(p) && p != root)
 			     {
-				     if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
+				     if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, p, 1) != OK)
 					     return NOTOK;
 			     }
 		     }
@@ -1287,24 +1287,24 @@ int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
 		     {
                  if (p == root)
                  {
-                     if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
+                     if (theGraph->M < M && gp_AddEdge(theGraph, v, 1, c, 1) != OK)
 				         return NOTOK;
 
                      if (v != last)
                      {
-			             if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+			             if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
 				             return NOTOK;
                      }
                  }
                  else
                  {
-			         if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+			         if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
 				         return NOTOK;
                  }
 
                  if (p != root)
                  {
-			        if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+			        if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
 				         return NOTOK;
                     last = c;
                  }
-- 
2.43.0


From 7b9bbb37afdb51605ec16552f611a80f8dc04494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:00 +0000
Subject: [PATCH 097/139] fix: the label of a vertex stays within the vertex in
 the rendition of a planar drawing

---
 planarity/c/graphDrawPlanar.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/planarity/c/graphDrawPlanar.c b/planarity/c/graphDrawPlanar.c
index 2034f90..edbb93b 100644
--- a/planarity/c/graphDrawPlanar.c
+++ b/planarity/c/graphDrawPlanar.c
@@ -833,6 +833,9 @@ char *_RenderToString(graphP theEmbedding)
             sprintf(numBuffer, "%d", v - zeroBasedVertexOffset);
             if ((unsigned)(context->VI[v].end - context->VI[v].start + 1) >= strlen(numBuffer))
             {
+                // Keep the end of the label within the vertex
+                if (Mid + (int)strlen(numBuffer) - 1 > context->VI[v].end)
+                    Mid = context->VI[v].end - (int)strlen(numBuffer) + 1;
                 memcpy((char *) visRep + (2*Pos) * (M+1) + Mid, (char *) numBuffer, strlen(numBuffer));
             }
             // If the vertex width is less than the label width, then fail gracefully
-- 
2.43.0


From 23d71712a5d291d64adee2741d467c23875b18a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:17 +0000
Subject: [PATCH 098/139] fix: planarmap: a 2-leg map with a given number of
 edges has that number of edges

---
 planarmap/PMplanmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planarmap/PMplanmap.c b/planarmap/PMplanmap.c
index 6edc4c6..437e104 100644
--- a/planarmap/PMplanmap.c
+++ b/planarmap/PMplanmap.c
@@ -94,7 +94,7 @@ int pmSetParameters(pmSize *Size, pmMethod *Meth)
       // Number edges set; determine from here
       if (Size->m == PM_MAP_TYPE_QUART_2C_2LEG) {
         if (Size->e % 2 == 1){
-          Size->v = Size->e-1 / 2;
+          Size->v = (Size->e-1) / 2;
           Size->f = Size->v + 1;
         } else {
           fprintf(stderr,"nb edges must be odd for 2leg quartic\n");
-- 
2.43.0


From 816d8abccb8b25183494b2667fc0d38de1273479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:17 +0000
Subject: [PATCH 099/139] fix: planarmap: a cubic map with a given number of
 edges has two more faces than a third of them

---
 planarmap/PMplanmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planarmap/PMplanmap.c b/planarmap/PMplanmap.c
index 437e104..5b820be 100644
--- a/planarmap/PMplanmap.c
+++ b/planarmap/PMplanmap.c
@@ -51,7 +51,7 @@ int pmSetParameters(pmSize *Size, pmMethod *Meth)
       Size->v = 2 * Size->e / 3;
     }else if (Size->e){
       if (Size->e % 3 == 0){
-  Size->f = Size->e / 3 - 2;
+  Size->f = Size->e / 3 + 2;
   Size->v = 2*Size->e / 3;
       }else{
   fprintf(stderr,"nb edges must be multiple of three for bicubic\n");
-- 
2.43.0


From 606e4d0b8c97d0c61e184074c9532fa1d2409376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:17 +0000
Subject: [PATCH 100/139] fix: planarmap: the geodesic distance statistic is
 off unless asked for

---
 planarmap/interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planarmap/interface.c b/planarmap/interface.c
index a8d4144..9efb50e 100644
--- a/planarmap/interface.c
+++ b/planarmap/interface.c
@@ -94,7 +94,7 @@ int pmParseArgs(int argc, char *argv[],
   Stat->stats = 0; Stat->loop = 0;
   Stat->core = 0;  Stat->dist = 0;
   Stat->facedeg =0; Stat->gauss = 0;
-  Stat->gaussmax = 0;
+  Stat->gaussmax = 0; Stat->geodist = 0;
 
   /* main loop to parse args */
 
-- 
2.43.0


From 1fbf13b55094a3da6d14d59f885d4c3019ca9da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:49 +0000
Subject: [PATCH 101/139] fix: randompolygon: a knot type matches only when all
 its prime factors do

---
 src/plcrwalk.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/plcrwalk.c b/src/plcrwalk.c
index 3948b13..33ae399 100644
--- a/src/plcrwalk.c
+++ b/src/plcrwalk.c
@@ -541,15 +541,24 @@ int main(int argc, char *argv[]) {
 
 	  for (check = 0; check < nposs; check++) {
 
-	    if (thistype->cr[check] == searchtype->cr[check] &&
-		thistype->ind[check] == searchtype->ind[check]) {
+	    /* Every prime factor of this possibility must be the one asked for. */
 
-	      passes_knottype = true;
+	    int factor;
+	    int same = (thistype[check].nf == searchtype->nf);
+
+	    for (factor = 0; same && factor < searchtype->nf; factor++) {
+
+	      same = (thistype[check].cr[factor] == searchtype->cr[factor] &&
+		      thistype[check].ind[factor] == searchtype->ind[factor]);
 
 	    }
 
+	    if (same) { passes_knottype = true; }
+
 	  }
 
+	  free(thistype);
+
 	}
 
       }
-- 
2.43.0


From 30e4bca5848b521449f699325d1d4828d880df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:49 +0000
Subject: [PATCH 102/139] fix: splitpd: an input file need not be called
 .pdstor

---
 src/splitpd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/splitpd.c b/src/splitpd.c
index 4da1ea9..016bd69 100644
--- a/src/splitpd.c
+++ b/src/splitpd.c
@@ -207,7 +207,7 @@ int main(int argc,char *argv[])
 
   char *basename = strdup(file->basename[0]);
   char *extension_start = strstr(basename,".pdstor");
-  *extension_start = 0;
+  if (extension_start != NULL) { *extension_start = 0; }
  
   for(pd = pd_stor_firstelt(pdstor),
 	subpd = pd_new_pdstor();
-- 
2.43.0


From c4ca5a27e104ed0deba2a39057cb0b4cc1fb371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:49 +0000
Subject: [PATCH 103/139] fix: ropelength: an infinite ropelength takes a line
 of its own, too

---
 src/ropelength.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ropelength.c b/src/ropelength.c
index 634aff1..757cfa9 100755
--- a/src/ropelength.c
+++ b/src/ropelength.c
@@ -200,7 +200,7 @@ int main(int argc,char *argv[]) {
     }
     if (thickness == 0) {
       if (q->count > 0) {
-	printf("inf");
+	printf("inf\n");
       } else {	
 	printf("%s:Ropelength: infinity  Thickness: %f\n",
 	       knotfiles->filename[filecnt], thickness);
-- 
2.43.0


From ab166ebb85da60d77ef779ec5035d3f74de2be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:28 +0000
Subject: [PATCH 104/139] fix: pd_reorient_component: the crossingless unknot
 has no crossing to flip

---
 src/pd_operations.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_operations.c b/src/pd_operations.c
index 4f2d270..7c11122 100644
--- a/src/pd_operations.c
+++ b/src/pd_operations.c
@@ -46,6 +46,12 @@ void pd_reorient_component(pd_code_t *pd, pd_idx_t cmp,pd_or_t orient)
   pd_check_notnull(SRCLOC,"pd",pd);
   pd_check_cmp(SRCLOC,pd,cmp);
 
+  if (pd->ncross == 0) { /* A crossingless circle has nothing to reverse. */
+
+    return;
+
+  }
+
   if (orient == PD_NEG_ORIENTATION) {
 
     /* Several things need to happen in a proper component reversal:
-- 
2.43.0


From 2b83d896511b459efebaafe7c25dc0e9d1e62bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 105/139] fix: carbonizepd --weak-checking: read hashes and
 0-crossing codes the way pd_read does

---
 src/carbonizepd.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/carbonizepd.c b/src/carbonizepd.c
index d0dbc4a..7127f8b 100644
--- a/src/carbonizepd.c
+++ b/src/carbonizepd.c
@@ -73,7 +73,7 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
      want the sscanf pattern to reflect PD_HASHSIZE (which might change) */
 
   char hash_template[1026];
-  sprintf(hash_template," pd %%%d[a-zA-Z0-9;:] %%lu ",PD_HASHSIZE);
+  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE-1); /* leave room for the terminating 0 */
 
   int sscanf_result = sscanf(pd_line,hash_template,hash,&input_temp);
 
@@ -91,7 +91,7 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
 	       "pd <hash> <uid>\n"
 	       "but hash == %s, which violates a hash rule\n"
 	       "the hash may be at most %d characters long\n"
-	       "and should only contain characters [a-zA-Z0-9;:]\n"
+	       "and should only contain characters [a-zA-Z0-9+/]\n"
 	       "\n"
 	       "If you don't know the hash, it should be omitted\n"
 	       "and this line should read\n"
@@ -173,9 +173,8 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
 
     /* If we're a zero-crossing unknot, there is one piece of 
        information that can actually matter, which is the tag 
-       of the (single) component. We're going to discard the 
-       rest of the file, but first we'll run through and extract
-       the "tag" (if present). */
+       of the (single) component. We read through to the "tag", and
+       then on to the next pd code in the file (if there is one). */
 
     char rolling_buffer[4];
     pd_tag_t tag = 'A';
@@ -185,19 +184,20 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
     rolling_buffer[2] = (char)(getc(infile));
     rolling_buffer[3] = 0;
 
-    for(;!feof(infile);) {
+    for(;strcmp(rolling_buffer,"tag");) {
 
-      if (!strcmp(rolling_buffer,"tag")) { 
-
-	fscanf(infile," %c ",&tag); 
-
-      }
+      if (feof(infile)) { return NULL; }
 
       rolling_buffer[0] = rolling_buffer[1]; rolling_buffer[1] = rolling_buffer[2];
       rolling_buffer[2] = (char)(getc(infile));
 
     }
 
+    fscanf(infile," %c ",&tag);
+
+    for(read_char = fgetc(infile);read_char != 'p' && !feof(infile);read_char = fgetc(infile));
+    if (!feof(infile)) { ungetc(read_char,infile); }
+
     pd_code_t *outcode;
     outcode = pd_build_unknot(0);
     outcode->comp[0].tag = tag;
-- 
2.43.0


From 89d704f1dcbbf1587d43bbfb4ac0b8fd396dbc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:30 +0000
Subject: [PATCH 106/139] fix: pd_is_alternating: the crossingless unknot has
 no crossings to look at

---
 src/pdcode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index ed98b93..6619dce 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2687,6 +2687,8 @@ bool pd_is_alternating(pd_code_t *pd)
 
   }
 
+  if (pd->ncross == 0) { return true; } /* There are no crossings to alternate. */
+
   pd_idx_t comp;
   pd_idx_t compedge;
 
-- 
2.43.0


From 199b192b9ce42c633a692fcfa972d301437f17a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:47 +0000
Subject: [PATCH 107/139] fix: pd_comps_ok: the lowest component tag, too, must
 not be below 'A'

---
 src/pdcode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 6619dce..9162fcf 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2432,9 +2432,9 @@ bool pd_comps_ok(pd_code_t *pd)
 
   qsort(tagset,pd->ncomps,sizeof(pd_tag_t),pd_tag_cmp);
 
-  for(i=1;i<pd->ncomps;i++) {
+  for(i=0;i<pd->ncomps;i++) {
 
-    if (tagset[i] == tagset[i-1]) {
+    if (i > 0 && tagset[i] == tagset[i-1]) {
 
       pd_idx_t compA, compB;
       bool Afound = false, Bfound = false;
-- 
2.43.0


From df3feb396c6d4abf9c8a9684a0e80a94b8a378db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:16 +0000
Subject: [PATCH 108/139] fix: pd_edges_ok: accepts a 0-crossing code with any
 number of edges

---
 src/pdcode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 9162fcf..afb0efc 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2241,6 +2241,12 @@ bool pd_edges_ok(pd_code_t *pd)
 
   }
 
+  if (pd->ncross == 0 && pd->nedges != 1) {
+
+    return pd_error(SRCLOC,"Wrong number of edges %d != 1 in 0-crossing diagram %PD",pd,pd->nedges);
+
+  }
+
   for(edge=0;edge < pd->nedges;edge++) {
 
     pd_edge_t *e = &(pd->edge[edge]);
-- 
2.43.0


From f3a3bbd898a3dbcbb2f2401c4d8304f4eddee297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:52 +0000
Subject: [PATCH 109/139] fix: nplCurve constraints: runs of different
 components are not joined

---
 src/nplCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 4f9a91d..dc3e149 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -494,6 +494,7 @@ static inline void overrun_check(nplc_constraint *cst) {
   }
   /* Now combine adjacent constraints if possible */
   while (cst->next != NULL &&
+         cst->next->cmp == cst->cmp &&
          cst->next->vert == cst->vert+cst->num_verts &&
          cst->next->kind == cst->kind &&
          cst->kind != nfixed &&
-- 
2.43.0


From b1d72239c2e6256c211e0278e896d2c394c94b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:42 +0000
Subject: [PATCH 110/139] fix: pd_build_twist_knot: the diagram of an even
 number of twists is alternating, too

---
 src/pdcode_testcodes.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/pdcode_testcodes.c b/src/pdcode_testcodes.c
index 7b22e88..aea1fb6 100644
--- a/src/pdcode_testcodes.c
+++ b/src/pdcode_testcodes.c
@@ -79,13 +79,35 @@ pd_code_t *pd_build_twist_knot(pd_idx_t n)
     
   pd_regenerate(pd);
 
-  /* Now we have an edge list and can assign crossing signs. It turns
-     out that this is trivial as all the crossings have positive sign. */
+  /* Now we have an edge list and can assign crossing signs. The twist
+     knot diagram is alternating, so every other edge along the knot
+     comes into its head crossing on the overstrand. (The signs are all
+     the same only if n is odd: if n is even, the clasp and the twists
+     have opposite signs.) */
 
   pd_idx_t k;
-  for(k=0;k<pd->ncross;k++) { 
+  for(k=0;k<pd->nedges;k+=2) {
 
-    pd->cross[k].sign = PD_POS_ORIENTATION;
+    pd_idx_t edge = pd->comp[0].edge[k], cr = pd->edge[edge].head;
+    pd_idx_t over_in, over_out;
+
+    pd->cross[cr].sign = PD_POS_ORIENTATION;
+    pd_overstrand(pd,cr,&over_in,&over_out);
+    if (over_in != edge) { pd->cross[cr].sign = PD_NEG_ORIENTATION; }
+
+  }
+
+  /* Of the two ways to do this, take the one where the first crossing
+     is positive (so all of them are positive, if n is odd). */
+
+  if (pd->cross[0].sign == PD_NEG_ORIENTATION) {
+
+    for(k=0;k<pd->ncross;k++) {
+
+      pd->cross[k].sign = (pd->cross[k].sign == PD_POS_ORIENTATION) ?
+	PD_NEG_ORIENTATION : PD_POS_ORIENTATION;
+
+    }
 
   }
 
-- 
2.43.0


From caf4c9fb309c58a9993c95e46851e19026080ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:42 +0000
Subject: [PATCH 111/139] fix: pd_homfly: the crossingless unknot does not send
 the computation into an endless loop

---
 src/plcTopology.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 729efa9..79abd91 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -287,6 +287,12 @@ char *pd_homfly_timeout(pd_code_t *pd, int timeout)
   char *ccode;
   char *homfly_lmpoly;
 
+  if (pd->ncross == 0) { /* An empty crossing code would send plc_lmpoly into an endless loop. */
+
+    return strdup("1");
+
+  }
+
   ccode = pdcode_to_ccode(pd);
 
   if (PD_VERBOSE) {
-- 
2.43.0


From ccbe9e5a9b8d962180002ffccfdde86e109b54c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:34 +0000
Subject: [PATCH 112/139] fix: pd_map_isomorphic and pd_build_map_isomorphisms
 crashed on 0-crossing diagrams

---
 src/pd_isomorphisms.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 12cd023..14a8288 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2852,7 +2852,10 @@ pd_iso_t **pdint_build_map_isomorphisms(pd_code_t *pdA,pd_code_t *pdB,
 
       for(map=0;map<nmaps && !abortflag;map++) { /* We have actually generated an isomorphism! */
 
-          if(crossmaps[map]->orient == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
+          /* With no crossings there is no crossmap, and the facemap carries the orientation. */
+          pd_or_t sphere_orient = (crossmaps[map] != NULL) ? crossmaps[map]->orient : facemaps[map]->orient;
+
+          if(sphere_orient == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
 
               pd_iso_t *new_iso;
               new_iso = calloc(1,sizeof(pd_iso_t)); assert(new_iso != NULL);
-- 
2.43.0


From ae1d6e46041563030ad1141f84148fd6a4423dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:52 +0000
Subject: [PATCH 113/139] fix: pd_tangle_slide accepted a one-crossing
 overstrand anchored at the crossing it deletes and wrote out of bounds

---
 src/pd_tangles.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 56b7dc1..36c2954 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2268,6 +2268,16 @@ void pd_tangle_slide_err(pd_code_t *pd,pd_tangle_t *t,
 
   }
 
+  /* This has to include the crossings which the slide will delete, even if
+     the overstrand crosses only one edge (and so has no middle edges). */
+
+  for(i=0;i<n-1;i++) {
+
+    if (pd->edge[overstrand_edges[i]].head == start_anchor) { start_anchor_ok = false; }
+    if (pd->edge[overstrand_edges[i]].head == end_anchor) { end_anchor_ok = false; }
+
+  }
+
   /* Next, we check the crossings internal to the tangle T. */
 
   for(i=0;i<t->ninterior_cross;i++) {
-- 
2.43.0


From 47613006ebd0b8440680524789bc6608d6205e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:25 +0000
Subject: [PATCH 114/139] fix: pd_tangle_slide accepted overstrands running
 through the tangle and read out of bounds

---
 src/pd_tangles.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 36c2954..0befb4d 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -1851,6 +1851,47 @@ bool pdint_check_tslide_data_ok_and_find_te(pd_code_t *pd,pd_tangle_t *t,
 
   }
 
+  /* The crossings the overstrand passes have to be outside the tangle, too. (If
+     the overstrand crosses only one edge, it has no middle edges, and both of its
+     edges could be incident edges of the tangle.) */
+
+  for(i=0;i<n-1;i++) {
+
+    pd_idx_t j;
+
+    for(j=0;j<t->ninterior_cross;j++) {
+
+      if (t->interior_cross[j] == pd->edge[overstrand_edges[i]].head) {
+
+	pd_error(SRCLOC,"overstrand_edges[%d] == %EDGE ends at %CROSS, which "
+		 "is interior to %TANGLE\n",
+		 pd,i,overstrand_edges[i],t->interior_cross[j],t);
+
+	if (*complementary_edges != NULL) {
+
+	  free(*complementary_edges);
+	  *complementary_edges = NULL;
+
+	}
+
+	if (*complementary_or != NULL) {
+
+	  free(*complementary_or);
+	  *complementary_or = NULL;
+
+	}
+
+	free(*tangle_slide_edges);
+	*tangle_slide_edges = NULL;
+
+	return false;
+
+      }
+
+    }
+
+  }
+
   /* Now make sure that the overstrand edges are actually in orientation order. */
 
   for(i=0;i<n-1;i++) {
-- 
2.43.0


From 91875fdc38f4a795f7accd8a072c79d5d75e4782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:27 +0000
Subject: [PATCH 115/139] fix: pd_tangle_ok reported unsorted, repeated or
 stray interior records but accepted the tangle

---
 src/pd_tangles.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 0befb4d..8002364 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -476,6 +476,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
   } else {
     if (t->interior_cross != NULL) {
       pd_error(SRCLOC,"t->ninterior_cross is 0, but the buffer t->interior_cross is allocated\n",pd);
+      return false;
     }
   }
 
@@ -484,6 +485,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
   } else {
     if (t->interior_edge != NULL) {
       pd_error(SRCLOC,"t->ninterior_edges is 0, but the buffer t->interior_edge is allocated\n",pd);
+      return false;
     }
   }
 
@@ -539,6 +541,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
 
       pd_error(SRCLOC,"list of interior crossings in %TANGLE "
 	       "is not in order",pd,t);
+      return false;
 
     }
 
@@ -550,6 +553,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
 
       pd_error(SRCLOC,"list of interior crossings in %TANGLE "
 	       "contains duplicate element at positions %d-%d",pd,t,i-1,i);
+      return false;
 
     }
 
@@ -561,6 +565,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
 
       pd_error(SRCLOC,"list of interior crossings in %TANGLE "
 	       "is not in order",pd,t);
+      return false;
 
     }
 
@@ -572,6 +577,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
 
       pd_error(SRCLOC,"list of interior crossings in %TANGLE "
 	       "contains duplicate element at positions %d-%d",pd,t,i-1,i);
+      return false;
 
     }
 
-- 
2.43.0


From e5afcae72fdb7cc9afc15b9d8a7170848f9c3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 116/139] fix: nplc_free and nplc_subarc_length leaked vertex
 buffers and difference vectors

---
 src/nplCurve.c | 6 ++++--
 src/nvector.c  | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index dc3e149..66fa51e 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -1750,11 +1750,13 @@ double nplc_subarc_length(const nplCurve * const L, const int cmp,
 
   length1 = length2 = 0.0;
   for (v = start; v < end; v++) {
+    nplc_vector edge = nplc_vect_diff(cp->vt[v+1],cp->vt[v]);
     if (v >= v1 && v < v2) {
-      length1 += nplc_norm(nplc_vect_diff(cp->vt[v+1],cp->vt[v]));
+      length1 += nplc_norm(edge);
     } else {
-      length2 += nplc_norm(nplc_vect_diff(cp->vt[v+1],cp->vt[v]));
+      length2 += nplc_norm(edge);
     }
+    nplc_vect_free(&edge);
   }
 
   return ((cp->open) ? length1 : ((length1 <= length2) ? length1 : length2));
diff --git a/src/nvector.c b/src/nvector.c
index b42af18..46cda8b 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -93,6 +93,8 @@ void nplc_vect_buf_free(int bufsize,nplc_vector *buf)
 
   }
 
+  free(buf);
+
 }
 
 int nplc_vect_dim(nplc_vector A,nplc_vector B) 
-- 
2.43.0


From e51ee320539f5cd1bc567bd73f9be08568106344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 117/139] fix: plc_resize_colorbuf leaked the empty color
 buffer it replaced

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 29be71b..68c5b6e 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2176,6 +2176,7 @@ void plc_resize_colorbuf(plCurve *L,const int cp, const int cc)
 
     if (L->cp[cp].cc == 0) { /* There is no existing data, and we are adding some. */
 
+      free(L->cp[cp].clr); /* There may be an (empty) buffer. */
       L->cp[cp].cc = cc;
       L->cp[cp].clr = calloc(sizeof(plc_color),cc);
       assert(L->cp[cp].clr != NULL);
-- 
2.43.0


From ee69d956690312250011e07778c997e0a95880e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 118/139] fix: pd_multidxs_unique leaked its sorted copy when
 it found duplicates

---
 src/pd_multidx.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pd_multidx.c b/src/pd_multidx.c
index a3aaecd..3f61489 100644
--- a/src/pd_multidx.c
+++ b/src/pd_multidx.c
@@ -269,13 +269,16 @@ bool pd_multidxs_unique(unsigned int nmultidxs,pd_multidx_t **multidx_buf)
 
       assert(ifound && iplusfound);
 
-      return pd_error(SRCLOC,
-		      "multidx_buf contains\n"
-		      "%MULTIDX == \n"
-		      "%MULTIDX at positions %d, %d \n"
-		      "(sorted) mb_copy buf positions are %d, %d\n"
-		      ,NULL,
-		      mb_copy[i],mb_copy[i+1],j,k,i,i+1);
+      pd_error(SRCLOC,
+	       "multidx_buf contains\n"
+	       "%MULTIDX == \n"
+	       "%MULTIDX at positions %d, %d \n"
+	       "(sorted) mb_copy buf positions are %d, %d\n"
+	       ,NULL,
+	       mb_copy[i],mb_copy[i+1],j,k,i,i+1);
+
+      free(mb_copy);
+      return false;
 
     }
 
-- 
2.43.0


From 0df640cadd95017b26030dffec7aba137243781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 119/139] fix: pd_cross_ok and pd_comps_ok leaked their scratch
 buffers when they reported an error

---
 src/pdcode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index afb0efc..bfb3e1a 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2160,6 +2160,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
     if (!(pd->cross[cross].sign == PD_POS_ORIENTATION || pd->cross[cross].sign == PD_NEG_ORIENTATION || pd->cross[cross].sign == PD_UNSET_ORIENTATION)) {
 
+      free(edge_seen);
       return pd_error(SRCLOC,"%CROSS contains illegal sign %d in pd %PD",pd,
 		      cross,pd->cross[cross].sign);
 
@@ -2171,6 +2172,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
       if (!(edge < pd->nedges)) {
 
+	free(edge_seen);
 	return pd_error(SRCLOC,"%CROSS contains illegal edge number %d (not < number of edges %d) in pd %PD",
 			pd,
 			cross,edge,pd->nedges);
@@ -2201,6 +2203,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
       } else {
 
+	free(edge_seen);
 	return pd_error(SRCLOC,"%EDGE not seen twice in %PD",pd,edge);
 
       }
@@ -2214,6 +2217,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
     if (pd_cross_cmp(&(pd->cross[cross]),&(pd->cross[cross-1])) < 0) {
 
+      free(edge_seen);
       return pd_error(SRCLOC,"%CROSS and %CROSS are out of order in %PD",
 		      pd,cross-1,cross);
 
@@ -2465,6 +2469,7 @@ bool pd_comps_ok(pd_code_t *pd)
 
       }
 
+      free(tagset);
       return pd_error(SRCLOC,"components %COMP and %COMP of %PD have duplicate tags",pd,compA,compB);
 
     }
@@ -2484,6 +2489,7 @@ bool pd_comps_ok(pd_code_t *pd)
 
       }
 
+      free(tagset);
       return pd_error(SRCLOC,"component %COMP has illegal tag (< 'A')",pd,compA);
 
     }
-- 
2.43.0


From 53588f0ac2d60483e13e4bf0e53bda3c42eecb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 120/139] fix: pd_build_diagram_isotopies, pd_iso_consistent
 and the uniqueness checks leaked buffers on negative answers

---
 src/pd_isomorphisms.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 14a8288..d05b2f1 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -560,7 +560,7 @@ bool pd_edgemaps_ok(unsigned int nedgemaps,pd_edgemap_t **edgemap_buf)
 
       assert(ifound && iplusfound);
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "edgemap_buf contains\n"
 		      "%EDGEMAP == \n"
 		      "%EDGEMAP at positions %d, %d \n"
@@ -568,6 +568,9 @@ bool pd_edgemaps_ok(unsigned int nedgemaps,pd_edgemap_t **edgemap_buf)
 		      ,NULL,
 		      emb_copy[i],emb_copy[i+1],j,k,i,i+1);
 
+      free(emb_copy);
+      return false;
+
     }
 
   }
@@ -2067,12 +2070,15 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 
       if (iso->edgemap->orient[this_edge] != comp_or[comp]) {
 
-	return pd_error(SRCLOC,
+	pd_error(SRCLOC,
 			"edge %d (edge %d of comp %d) edgemap or %OR does \n"
 			"not match edge %d (edge 0 of comp %d) or %OR",NULL,
 			this_edge,compedge,comp,iso->edgemap->orient[this_edge],
 			start_edge,comp,comp_or[comp]);
 
+	free(comp_or);
+	return false;
+
       }
 
     }
@@ -2111,13 +2117,16 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 
       if (!pdint_in_cyclic_order(pos1,pos2,pdB->comp[comp1].nedges,comp_or[comp])) {
 
-	return pd_error(SRCLOC,
+	pd_error(SRCLOC,
 			"along comp %d of pdA, edges %d and %d (global edges %d and %d) map to\n"
 			"edges %d and %d of comp %d of pdB (global edges %d and %d) which are not\n"
 			"in cyclic order %OR",NULL,
 			comp,compedge,(compedge+1)%pdA->comp[comp].nedges,
 			edge1,edge2,pos1,pos2,comp1,after1,after2,&(comp_or[comp]));
 
+	free(comp_or);
+	return false;
+
       }
 
     }
@@ -2229,7 +2238,7 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 				&(after_facemap_face->edge[0]),
 				nedges,iso->facemap->orient)) {
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "%FACEMAP takes %d -> %OR %d, but \n"
 		      "%EDGEMAP takes %FACEPTR -> %FACEPTR != %FACEPTR\n"
 		      "with orientation %OR.\n",
@@ -2237,6 +2246,9 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 		      iso->edgemap,&(pdA->face[face]),&after_edgemap_face,
 		      after_facemap_face);
 
+      free(after_edgemap_face.edge); free(after_edgemap_face.orient);
+      return false;
+
     }
 
     /* Now free the after_edgemap face */
@@ -2296,7 +2308,7 @@ bool      pd_isos_unique(unsigned int nisos,pd_iso_t **iso_buf)
 
       assert(ifound && iplusfound);
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "iso_buf contains\n"
 		      "%ISO == \n"
 		      "%ISO at positions %d, %d \n"
@@ -2304,6 +2316,9 @@ bool      pd_isos_unique(unsigned int nisos,pd_iso_t **iso_buf)
 		      ,NULL,
 		      isobuf_copy[i],isobuf_copy[i+1],j,k,i,i+1);
 
+      free(isobuf_copy);
+      return false;
+
     }
 
   }
@@ -2618,6 +2633,7 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     if (pdA->comp[i].nedges != pdB->comp[comp_perm->map[i]].nedges) {
 
+      pd_free_container(&isos,pd_free_fake);
       pd_free_perm((void **)(&comp_perm));
       *nisos = 0;
       return NULL;
-- 
2.43.0


From f19e6ed739e7b71a35338b0d795a25552f6b3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 121/139] fix: pd_R2_bigon_elimination, pd_R3_triangle_flip and
 pd_compacting_copy leaked buffers and a diagram

---
 src/pd_crossingmoves.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 3d52da1..ed0c244 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -149,6 +149,7 @@ void pd_compacting_copy(void *source, size_t obj_size, size_t nobj,
     for(i=0;i<nobj;i++) {
       tidx[i] = PD_UNSET_IDX;
     }
+    free(uniquedeletions);
     return;
   }
 
@@ -1712,6 +1713,8 @@ v         |                     |         ^
         free(compstate);
         free(new_crossing_idx_A); free(new_crossing_idx_B);
         free(new_edge_idx_A); free(new_edge_idx_B);
+        free(A_crossings); free(B_crossings);
+        free(A_edges); free(B_edges);
 
         /* Finally, we return the results. */
 
@@ -1909,6 +1912,7 @@ pd_code_t *pd_R3_triangle_flip(pd_code_t *pd, pd_idx_t f)
 
     if (pd->face[f].nedges != 3) {
         // Should also check for 3 vertices... hmm
+        pd_code_free(&ret);
         return NULL;
     }
 
-- 
2.43.0


From 5acee95ec007c95080ae4edbbec7b86bf1f406a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 122/139] fix: pd_tangle_ok and pd_regenerate_tangle_err leaked
 scratch buffers when they refused a tangle

---
 src/pd_tangles.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 8002364..ab2b598 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -253,6 +253,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
       pd_error(SRCLOC,
 	       "edge %d occurs more than once in the edge list of %TANGLE",
 	       pd,scratch[i],t);
+      free(scratch);
       return false;
 
     }
@@ -286,6 +287,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
     if (!pd_xor(pos_face[i] == t->face[i],neg_face[i] == t->face[i])) {
 
       pd_printf("edge t->edge[%d] = %EDGE is not on face t->face[%d] %FACE exactly once: tangle test fails in %PD\n",pd,i,t->edge[i],i,t->face[i]);
+      free(pos_face); free(neg_face);
       return false;
 
     }
@@ -293,6 +295,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
     if (!pd_xor(pos_face[i] == t->face[(i+1)%t->nedges],neg_face[i] == t->face[(i+1)%t->nedges])) {
 
       pd_printf("edge t->e[%d] = %EDGE is not on face t->face[%d] %FACE exactly once: tangle test fails in %PD\n",pd,i,t->edge[i],(i+1)%(t->nedges),t->face[(i+1)%t->nedges]);
+      free(pos_face); free(neg_face);
       return false;
 
     }
@@ -645,6 +648,7 @@ void pd_regenerate_tangle_err(pd_code_t *pd, pd_tangle_t *t, int *err)
 	       "can't regenerate tangle %TANGLE when edge %d\n"
 	       "occurs more than once in the edge list\n",
 	       pd,t,scratch[i]);
+      free(scratch);
       if (err) {
           pd_err_set(err, PD_TANGLE_ERROR);
           return;
-- 
2.43.0


From f23e6a1f2cead01bd78813a77fc194d6ebea57ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 123/139] fix: pd_code_from_plCurve leaked a copy of the curve
 on each failed projection

---
 src/plcTopology.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 79abd91..253794b 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -675,6 +675,7 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
     if (safe_radius < 1e-16) {
 
       fprintf(stderr,"plc_ccode: plCurve is numerically singular. Can't compute projection.\n");
+      plc_free(Lcopy);
       return NULL;
 
     }
@@ -749,6 +750,7 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
   if (projection_clean == false) {
 
     fprintf(stderr,"plc_ccode: Couldn't resolve singularities in %d passes. plCurve is probably singular.\n",attempt_counter);
+    plc_free(Lcopy);
     return NULL;
 
   }
@@ -874,6 +876,7 @@ crossing_container *findcrossings(plCurve *L) {
 	      fprintf(stderr,"plc_ccode: Unexpected error computing "
 		      "crossings for (supposedly) generic L.\n");
 	      crossing_container_free(&cc);
+	      plc_free(Lproj);
 	      return NULL;
 
 	    }
-- 
2.43.0


From 0e9eb3f76b406d4cda074aa95cdc40719f767ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:49 +0000
Subject: [PATCH 124/139] fix: tsmcmc_triangulation_ok and
 tsmcmc_polygon_embedding_ok leaked buffers when they found an error

---
 src/plcToricSymplecticTriangulation.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 184346f..641bf5d 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -412,6 +412,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
     if (!tsmcmc_chord_ok(T,T.triangles[i].parent_chord,T.triangles[i].parent_type)) { 
 
       printf("T.triangles[%d].parent chord not ok.\n",i);
+      free(daughterof);
       return false;
 
     }
@@ -421,6 +422,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
       if (!tsmcmc_chord_ok(T,T.triangles[i].daughter_chord[j],T.triangles[i].daughter_type[j])) {
 	
 	printf("T.triangles[%d].daughter_chord[%d] not ok.\n",i,j);
+	free(daughterof);
 	return false;
 
       }
@@ -430,6 +432,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	printf("T.triangles[%d].daughter_tri[%d] = %d illegal (<-1 or >T.ntri-1 = %d)\n",
 	       i,j,T.triangles[i].daughter_tri[j],T.ntri-1);
 
+	free(daughterof);
 	return false;
 
       }
@@ -440,6 +443,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 
 	  printf("Triangle %d is a daughter of BOTH triangle %d and triangle %d.\n",
 		 T.triangles[i].daughter_tri[j],i,daughterof[T.triangles[i].daughter_tri[j]]);
+	  free(daughterof);
 	  return false;
 	  
 	}
@@ -463,6 +467,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	tsmcmc_print_chord(T,T.triangles[i].daughter_chord[0],T.triangles[i].daughter_type[0]); printf("\n");
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
+	free(daughterof);
 	return false;
 	
       } 
@@ -477,6 +482,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	tsmcmc_print_chord(T,T.triangles[i].daughter_chord[0],T.triangles[i].daughter_type[0]); printf("\n");
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
+	free(daughterof);
 	return false;
 	
       } 
@@ -493,6 +499,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
       tsmcmc_print_chord(T,T.triangles[i].daughter_chord[0],T.triangles[i].daughter_type[0]); printf("\n");
       printf("daughter 1:"); tsmcmc_print_chord(T,T.triangles[i].daughter_chord[1],T.triangles[i].daughter_type[1]); printf("\n");
 
+      free(daughterof);
       return false;
 
     } 
@@ -510,6 +517,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
 	
+	free(daughterof);
 	return false;
 	
       } 
@@ -525,6 +533,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
 	
+	free(daughterof);
 	return false;
 	
       } 
@@ -545,6 +554,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	
 	printf("BOTH triangle %d and triangle %d don't appear as a daughter.\n",
 	       i,roottri);
+	free(daughterof);
 	return false;
 	
       } else {
@@ -1071,6 +1081,7 @@ bool tsmcmc_polygon_embedding_ok(plCurve *L,
 
       printf("tsmcmc_polygon_embedding_ok: edge %d has actual length %g != edge_lengths[%d] == %g\n",
 	     i,new_edge_lengths[i],i,edge_lengths[i]);
+      free(new_edge_lengths);
       return false; 
 
     }
@@ -1092,6 +1103,7 @@ bool tsmcmc_polygon_embedding_ok(plCurve *L,
       
       printf("tsmcmc_polygon_embedding_ok: diagonal %d has actual length %g != diagonal_lengths[%d] == %g\n",
 	     i,new_diagonal_lengths[i],i,diagonal_lengths[i]);
+      free(new_diagonal_lengths);
       return false; 
       
     }
@@ -1115,6 +1127,7 @@ bool tsmcmc_polygon_embedding_ok(plCurve *L,
 	
 	printf("tsmcmc_polygon_embedding_ok: dihedral %d has angle %g != dihedral_angles[%d] == %g \n",
 	       i,new_dihedral_angles[i],i,dihedral_angles[i]);
+	free(new_dihedral_angles); free(dihedral_defined);
 	return false; 
 	
       }
-- 
2.43.0


From b33b89f22f18bfc4ceb5ff4da18127ddfa328027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:49 +0000
Subject: [PATCH 125/139] fix: KnotTheory_to_polynomial leaked the polynomial
 when it refused its input

---
 src/polynomials.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/polynomials.c b/src/polynomials.c
index 84fb124..3d4946f 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -690,6 +690,7 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 
       pd_error( SRCLOC ,"ran out of monomials early: expected %d, got as far as %d\n",
 		NULL, nterms, i);
+      homfly_polynomial_free(&homfly);
       return NULL;
 
     }
@@ -698,6 +699,7 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 	       &(homfly->mono[i].coeff),&(homfly->mono[i].l), &(homfly->mono[i].m)) != 3) {
 
       pd_error( SRCLOC ,"failed to decode monomial %s", NULL, monostring);
+      homfly_polynomial_free(&homfly);
       return NULL;
 
     }
-- 
2.43.0


From e883be252631a20b0a9c739e5a48bac84408983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:47 +0000
Subject: [PATCH 126/139] fix: total torsion of curves with short edges was
 reported as 0

---
 src/plCurve.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 68c5b6e..480af2b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1761,6 +1761,16 @@ double torsionangle(plc_vector a,plc_vector b,plc_vector c,plc_vector d)
   edges[0] = plc_vect_diff(b,a);
   edges[1] = plc_vect_diff(c,b);
   edges[2] = plc_vect_diff(d,c);
+
+  /* The angle doesn't depend on the lengths of the edges, but plc_angle 
+     can't work with very short vectors, so we use unit vectors. */
+
+  int i;
+
+  for(i=0;i<3;i++) { 
+    edges[i] = plc_normalize_vect(edges[i],&ok);
+    if (!ok) { return 0; }
+  }
   
   plc_vector normals[2];
   
-- 
2.43.0


From a1e15bc3e01a4008617d14ccd45e5d49b63b7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:47 +0000
Subject: [PATCH 127/139] fix: plc_random_rotate distorted curves when the axis
 was nearly vertical

---
 src/plCurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 480af2b..8436c8e 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2824,7 +2824,7 @@ void plc_random_rotate(plCurve *link, plc_vector axis)
   double xrand = axis.c[0];
   double yrand = axis.c[1];
   double zrand = axis.c[2];
-  double tmp = sqrt(1-zrand*zrand);
+  double tmp = sqrt(xrand*xrand + yrand*yrand); /* = sqrt(1-zrand*zrand), without cancellation when zrand is near +-1 */
 
   if(tmp > DBL_EPSILON){
 
-- 
2.43.0


From 74d3fef7367454e0e1a5d8aaf6f6943d086ee64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:01 +0000
Subject: [PATCH 128/139] fix: copying a crossing-free diagram lost its
 identifier and component tag

---
 src/pdcode.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index bfb3e1a..df384a5 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2782,7 +2782,12 @@ pd_code_t *pd_copy_newsize(pd_code_t *pd, pd_idx_t MAXVERTS)
 {
   if (pd->ncross == 0) {
 
-    return pd_build_unknot(0);
+    pd_code_t *unknot = pd_build_unknot(0);
+
+    unknot->uid = pd->uid;
+    unknot->comp[0].tag = pd->comp[0].tag;
+
+    return unknot;
 
   }
 
-- 
2.43.0


From bc0703de8f01ec6fef69f4be3080230090d4087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:01 +0000
Subject: [PATCH 129/139] fix: removing the kink of a one-crossing diagram lost
 its component tag

---
 src/pd_crossingmoves.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index ed0c244..874a504 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -465,7 +465,10 @@ pd_code_t *pd_R1_loopdeletion(pd_code_t *pd,pd_idx_t cr)
 
     if (pd->ncomps == 1 && pd->ncross == 1 && pd->nedges == 2 && pd->nfaces == 3) {
 
-      return pd_build_unknot(0);
+      pd_code_t *unknot = pd_build_unknot(0);
+      unknot->comp[0].tag = pd->comp[0].tag;
+
+      return unknot;
 
     } else {
 
-- 
2.43.0


From 6f3b4d7eb6748140cb4f3d88637748a8487fc45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:01 +0000
Subject: [PATCH 130/139] fix: reading a crossing-free diagram lost its
 identifier

---
 src/pdcode.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index df384a5..bfd97d0 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3355,6 +3355,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     fscanf(infile," %c ",&tag);
     pd_code_t *outcode;
     outcode = pd_build_unknot(0);
+    outcode->uid = uid;
     outcode->comp[0].tag = tag;
 
     /* Now we continue to scan until we see the letter p (a new pd-code) or feof. */
-- 
2.43.0


From 5572590c0011f87e1bb0e8ed46319051f73b9e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:37 +0000
Subject: [PATCH 131/139] fix: displaying an empty store crashed

---
 src/pd_storage.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 2402999..f963f04 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -542,6 +542,8 @@ void pd_display_pdstor(FILE *stream,pd_stor_t *pdstor) /* Prints a representatio
   pd_uid_t   uid_min,uid_max;
 
   pd = pd_stor_firstelt(pdstor);
+  if (pd == NULL) { return; } /* An empty pdstor has no hashes to list. */
+
   strncpy(cur_hash,pd->hash,32);
   uid_min = pd->uid;
   uid_max = pd->uid;
-- 
2.43.0


From e83a038c1f5b41bdb66f5913a9c22e1727241d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:21 +0000
Subject: [PATCH 132/139] fix: HOMFLY of a diagram with exactly 250 crossings
 wrote past a buffer

---
 src/pllmpoly02.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pllmpoly02.c b/src/pllmpoly02.c
index f8dab8b..5f3d8ef 100644
--- a/src/pllmpoly02.c
+++ b/src/pllmpoly02.c
@@ -1611,7 +1611,7 @@ int conchk(lmpoly_state_t *state)
 {
  register short i, j;
  int vnum, vbrnch, top;
- char str[20], local_cbuf[XCNT*2];
+ char str[20], local_cbuf[XCNT*2+1];
  vnum=vbrnch= 0;
  (state->lowx)= 1;
  i=top= (state->numcrs)*2;
-- 
2.43.0


From ea07f085a2aecd268ca01c5d99a0f8c4ec7a55e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:47 +0000
Subject: [PATCH 133/139] fix: pd_printf printed a stray letter after a
 %CROSSPTR conversion

---
 src/pdcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index bfd97d0..19503e5 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -4386,7 +4386,7 @@ void pd_vfprintf(FILE *stream, char *infmt, pd_code_t *pd, va_list ap )
 	      cross->edge[3],
 	      pd_print_or(cross->sign));
 
-	nxtconv += 8;
+	nxtconv += 9;
 
     }  else if (!strncmp(nxtconv,"%CROSSMAP",9)) { /* Crossing map */
 
-- 
2.43.0


From 4dc88160e8cd9e4ac3df0e6bf109609a0653db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:47 +0000
Subject: [PATCH 134/139] fix: pd_printf recognised %ISO only before a space

---
 src/pdcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 19503e5..434fbee 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -4510,7 +4510,7 @@ void pd_vfprintf(FILE *stream, char *infmt, pd_code_t *pd, va_list ap )
 
       nxtconv += 7;
 
-    } else if (!strncmp(nxtconv,"%ISO ",5)) { /* pd_code -> pd_code isomorphism */
+    } else if (!strncmp(nxtconv,"%ISO",4)) { /* pd_code -> pd_code isomorphism */
 
       pd_iso_t *iso = (pd_iso_t *) va_arg(ap,void *);
       char *printed;
-- 
2.43.0


From fb3d4a7620f9c285f2485ce6e672760284a5bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:47 +0000
Subject: [PATCH 135/139] fix: pd_printf overwrote the character after an
 unrecognised conversion

---
 src/pdcode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 434fbee..1654418 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -4584,10 +4584,11 @@ void pd_vfprintf(FILE *stream, char *infmt, pd_code_t *pd, va_list ap )
       char *adv;
       for(adv=nxtconv;!isspace(*adv) && *adv != 0;adv++);
       /* Advance the pointer to the next whitespace or end of string. */
+      char saved = *adv;
       *adv = 0; /* Terminate the string there */
 
       fprintf(stream,"%s",nxtconv); /* Copy the format conversion into stream */
-      *adv = ' ';
+      *adv = saved;
       nxtconv = adv;
 
     }
-- 
2.43.0


From 25050eb017fc4b3cbbf776fe03c6086e0fc1da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:47 +0000
Subject: [PATCH 136/139] fix: printing an edge map with more than about a
 thousand edges aborted

---
 src/pd_isomorphisms.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index d05b2f1..b5ca7a6 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -391,7 +391,7 @@ char  *pd_print_edgemap(pd_edgemap_t *edgemap)
   char *str,*strptr;
   size_t bufsize, printed;
 
-  bufsize = 5*edgemap->perm->n + 25;
+  bufsize = 12*edgemap->perm->n + 25;
   str = calloc(bufsize,sizeof(char)); assert(str != NULL);
   strptr = str;
 
-- 
2.43.0


From 5519bb3e5a49a37548036732ea76c4687d3da4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:27 +0000
Subject: [PATCH 137/139] fix: pd_homfly_timeout leaked its crossing code when
 no polynomial was found

---
 src/plcTopology.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 253794b..27e0d99 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -311,6 +311,7 @@ char *pd_homfly_timeout(pd_code_t *pd, int timeout)
   }
 
   if (homfly_lmpoly == NULL) {
+      free(ccode);
       return NULL; // NULL signifies timeout or other error in plc_lmpoly
   }
 
-- 
2.43.0


From 8dc234de2fb0abaa7ca82d18281515efe13d67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:45 +0000
Subject: [PATCH 138/139] fix: lu_decmp releases its copy of the matrix when it
 refuses it

---
 src/matrix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/matrix.c b/src/matrix.c
index 7913804..b4277a1 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -99,6 +99,7 @@ plc_matrix  *lu_decmp(plc_matrix *A,int index[3],double *d,bool *ok)
 
     if (big == 0.0) {
 
+      free(cvt);
       *ok = false;
       return NULL;
 
-- 
2.43.0


From f7a67b297ae0eb0dfdbc2882f5b65da6bcb326a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:10 +0000
Subject: [PATCH 139/139] fix: octrope lost struts between parallel edges to
 rounding

For parallel edges find_poca took the start of the first edge, and wedge_check
refused a strut at a right angle to an edge whenever rounding put it on the
wrong side, so the shortest strut of a rotated lattice link could vanish.
---
 src/octrope.c | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 355ecfb..bfd09f8 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -763,6 +763,7 @@ int wedge_check(varr *edge, const plc_vector v[3],
   double slab_norm;
   double ramp_norm;
   double dot_product;
+  double slack;
   plc_vector far_end;
 
   if (edge == wedgecheck_edge[which]) {
@@ -796,8 +797,11 @@ int wedge_check(varr *edge, const plc_vector v[3],
 #endif
 
   plc_M_sub_vect(far_end,v[1]);
+  /* A strut which meets the slab or the ramp at a right angle lies on the
+     boundary of the wedge; it must not be lost to rounding on both sides. */
+  slack = 1e-12*plc_M_norm(far_end);
   dot_product = plc_M_dot(slab_normal,far_end)/slab_norm;
-  if (dot_product > 0) { /* Inside slab */
+  if (dot_product > slack) { /* Inside slab */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       wc_count[1]++;
@@ -806,7 +810,7 @@ int wedge_check(varr *edge, const plc_vector v[3],
     return false;
   }
   dot_product = plc_M_dot(ramp_normal,far_end)/ramp_norm;
-  if (dot_product > 0) { /* Behind ramp */
+  if (dot_product > slack) { /* Behind ramp */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       wc_count[3]++;
@@ -851,6 +855,7 @@ int ramp_check(varr *edge, const plc_vector v[3],
   static double ramp_norm;
   plc_vector the_point;
   double dot_product;
+  double slack;
 
 #ifdef DEBUG
   if (octrope_debug_level() > 6) {
@@ -874,8 +879,9 @@ int ramp_check(varr *edge, const plc_vector v[3],
   }
   the_point = v3;
   plc_M_sub_vect(the_point,v[1]);
+  slack = 1e-12*plc_M_norm(the_point); /* as in wedge_check */
   dot_product = plc_M_dot(slab_normal,the_point)/slab_norm;
-  if (!last_edge && dot_product > slab_norm) { /* In front of slab */
+  if (!last_edge && dot_product > slab_norm + slack) { /* In front of slab */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       rc_count[0]++;
@@ -892,7 +898,7 @@ int ramp_check(varr *edge, const plc_vector v[3],
     return 2;
   }
   dot_product = plc_M_dot(ramp_normal,the_point)/ramp_norm;
-  if (dot_product > 0) { /* Behind ramp */
+  if (dot_product > slack) { /* Behind ramp */
 #ifdef DEBUG
     if (octrope_debug_level() > 2) {
       rc_count[3]++;
@@ -1176,7 +1182,7 @@ void find_poca(plc_vector edgeA[2], plc_vector edgeB[2],
 
   //assert(fabs(D1) > 1e-10 && fabs(D2) > 1e-10);
 
-  if (denom < 1e-10) {
+  if (denom < 1e-10 || denom < 1e-10*D1*D2) {
 
     /* The situation is somewhat numerically unstable. The right thing to do is to repeat
        the calculation in long double to see if we can salvage things. */
@@ -1184,19 +1190,35 @@ void find_poca(plc_vector edgeA[2], plc_vector edgeB[2],
     long double LD1,LD2,LR,LS1,LS2;
     long double LT,LU;
 
-    LD1 = plc_M_dot(d1,d1); 
-    LD2 = plc_M_dot(d2,d2);
-    LR  = plc_M_dot(d1,d2); 
-    LS1 = plc_M_dot(d1,d12); 
-    LS2 = plc_M_dot(d2,d12);
+    #define LDOT(A,B) ((long double)(A).c[0]*(B).c[0] + (long double)(A).c[1]*(B).c[1] + (long double)(A).c[2]*(B).c[2])
+    LD1 = LDOT(d1,d1); 
+    LD2 = LDOT(d2,d2);
+    LR  = LDOT(d1,d2); 
+    LS1 = LDOT(d1,d12); 
+    LS2 = LDOT(d2,d12);
+    #undef LDOT
     
     long double Ldenom;
     
     Ldenom = LD1*LD2 - LR*LR;
     
-    if (Ldenom < 1e-25) {
+    if (Ldenom <= 1e-18L*LD1*LD2) {
       
-      LT = 0; // We assume that the line segments are parallel. 
+      /* We assume that the line segments are parallel, and take the middle of
+	 the part of A which lies alongside B, so that neither end of the strut
+	 depends on rounding. */
+
+      long double lo = 0, hi = 0;
+
+      if (LD1 > 0) { lo = LS1/LD1; hi = (LS1 + LR)/LD1; }
+      if (lo > hi) { LT = lo; lo = hi; hi = LT; }
+      if (lo < 0) { lo = 0; }
+      if (hi > 1) { hi = 1; }
+
+      LT = (lo + hi)/2;
+
+      if (LT > 1) { LT = 1; }
+      else if (LT < 0) { LT = 0; }
 	
     } else {
       
-- 
2.43.0

