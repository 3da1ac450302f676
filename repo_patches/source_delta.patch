From 11a909bbac67a3c5e0b6fe14054a66c93f672f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 01/42] fix: setting a parameter from its own value no longer
 reads freed memory

---
 src/main/main/parameters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 60b2ac3..0cb7b7c 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -199,9 +199,10 @@ void makeparameter(char *name, char *value, char *description)
 void setparameter(char *name, char *value)
 {
   tParameter *p = findparameter(name, 1);
+  char *newvalue = strdup(value); /* value may point to p->value */
 
   free(p->value);
-  p->value = strdup(value);
+  p->value = newvalue;
   translatevalue(&p->value);
   set_numericalvalue_byIndex(p, 0, 1);
   set_booleanvalue_byIndex(p, 0, 1);
-- 
2.43.0


From 74e740abeb032bd96eaad38cb20e73cad922085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 02/42] fix: Getv finds a word also if an earlier word ends
 with it

---
 src/main/main/parameters.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 0cb7b7c..51d3171 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -420,25 +420,19 @@ double Getd(char *name)
 int GetvFlag(char *name, char *value, int fatal)
 {
   tParameter *p = findparameter(name, fatal);
-  char *s=NULL;
-  char *parval;
-  int lv, ls, lp, startok, endok;
+  char *s;
+  int lv, startok, endok;
 
   if (!p) return 0;
-  parval = p->value;
-  while( (s = strstr(parval, value)) )
+  lv = strlen(value);
+  for( s = p->value; (s = strstr(s, value)); s++ )
   {
-    lv = strlen(value);
-    //printf("ls=%d  value=%s| s=%s| p->value=%s|\n", ls, value, s, p->value); 
-    if( s[lv]==' ' || s[lv]==0 ) break;
-    parval = s+1;
+    startok = (s == p->value || *(s-1) == ' ');
+    endok   = (s[lv] == ' ' || s[lv] == 0);
+    if (startok && endok) return 1;
+    if (*s == 0) break;
   }
-  if (!s) return 0;
-  ls = strlen(s);
-  lp = strlen(p->value);
-  startok = (s == p->value || *(s-1) == ' ');  /* how robust is this? */
-  endok   = (s+ls == p->value+lp || *(s+ls) == ' ');
-  return startok && endok ? 1 : 0;
+  return 0;
 }
 
 int GetvLax(char *name, char *value)
-- 
2.43.0


From 71c228680de0101a188daeb67d81ed7bae423869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 03/42] fix: Appends to an empty parameter does not make a
 leading space

---
 src/main/main/parameters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 51d3171..23c5353 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -380,7 +380,8 @@ void Appends(char *name, char *value)
   {
     char *oldvalue = Gets(name);
     char *newvalue = cmalloc(strlen(oldvalue) + strlen(value) + 2);
-    sprintf(newvalue, "%s %s", oldvalue, value);
+    if (*oldvalue) sprintf(newvalue, "%s %s", oldvalue, value);
+    else           strcpy(newvalue, value); /* no leading space */
     setparameter(name, newvalue);
     free(newvalue);
   }
-- 
2.43.0


From 09b6610504c4460f48d59ddd5117add3fc9b5371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 04/42] fix: parities of (ab)(ij) tensors refer to the
 direction of the index

---
 src/main/main/tensors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 74f7740..9774bad 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -265,8 +265,8 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     for (k = 0; k < 3; k++)
     for (l = k; l < 3; l++)
     {
-      if (i > 0) sym[3*n+i] *= -1; 
-      if (j > 0) sym[3*n+j] *= -1;
+      if (i > 0) sym[3*n+i-1] *= -1; 
+      if (j > 0) sym[3*n+j-1] *= -1;
       sym[3*n+k] *= -1;
       sym[3*n+l] *= -1;
       ilist[n] = calloc(ilistSTRLEN, sizeof(char));
-- 
2.43.0


From 71d9d9a73a57293608c63eeca42ce5e6b3030192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 05/42] fix: index strings for two symmetric pairs are
 recognized when written as a sum

---
 src/main/main/tensors.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 9774bad..6dc4575 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -150,7 +150,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk)") == 0 ||
+  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk") == 0 ||
      strcmp(tensorindices, "(ij)(kl)") == 0) {
     for (i = 0; i < 3; i++)
     for (j = i; j < 3; j++) 
@@ -258,7 +258,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "abij+abji+baij+baji)") == 0 ||
+  if(strcmp(tensorindices, "abij+abji+baij+baji") == 0 ||
      strcmp(tensorindices, "(ab)(ij)") == 0) {
     for (i = 0; i <= 3; i++)
     for (j = i; j <= 3; j++) 
@@ -317,7 +317,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts)") == 0 ||
+  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts") == 0 ||
      strcmp(tensorindices, "(qr)(st)") == 0) {
     for (i = 0; i < 2; i++)
     for (j = i; j < 2; j++) 
-- 
2.43.0


From 07b1a854e679a101d6269d2f56dc72bd33e46b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 06/42] fix: AddConstantVar flags the declared variable also
 after a restart

---
 src/main/main/variables.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main/main/variables.c b/src/main/main/variables.c
index 913340e..f64506d 100644
--- a/src/main/main/variables.c
+++ b/src/main/main/variables.c
@@ -104,8 +104,19 @@ void AddVar(char *name, char *tensorindices, char *description)
 /* add constant variable to data base */
 void AddConstantVar(char *name, char *tensorindices, char *description)
 {
+  int nilist, j;
+  char *ilist[NINDEXLIST];
+  int sym[3*NINDEXLIST];
+  char fullname[100];
+
   AddVar(name, tensorindices, description);
-  VarNameSetConstantFlag(vdb[nvdb-1].name);
+
+  /* The var is not always the last one in vdb, because AddVar adds nothing
+     if the var is there already after a restart. So we go by its name. */
+  tensorindexlist(tensorindices, &nilist, ilist, sym);
+  snprintf(fullname, 100, "%s%s", name, ilist[0]);
+  for(j = 0; j < nilist; j++) free(ilist[j]);
+  VarNameSetConstantFlag(fullname);
 }
 
 /* add a Var if we have a grid already */
-- 
2.43.0


From 99da193830cbe1858a2a4fa96b54059a2d146eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 07/42] fix: vlpushvl can append a variable list to itself

---
 src/main/main/variables.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/main/variables.c b/src/main/main/variables.c
index f64506d..63e4428 100644
--- a/src/main/main/variables.c
+++ b/src/main/main/variables.c
@@ -373,13 +373,14 @@ void vlpush(tVarList *v, int vi)
 /* add a variable list to a variable list */
 void vlpushvl(tVarList *v, tVarList *u)
 {
-  int i;
+  int i, nu;
 
   if (!v || !u) return;
-  v->n += u->n;
+  nu = u->n; /* save u->n, since it changes below if u=v */
+  v->n += nu;
   v->index = realloc(v->index, sizeof(int) * v->n); 
-  for (i = 0; i < u->n; i++)
-    v->index[v->n - u->n + i] = u->index[i];
+  for (i = 0; i < nu; i++)
+    v->index[v->n - nu + i] = u->index[i];
 }
 
 
-- 
2.43.0


From 81244f96cff432a90dc83975256a90d7f3cdad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 08/42] fix: pushlist can append a list to itself

---
 src/main/MemoryMan/list_templates.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/MemoryMan/list_templates.c b/src/main/MemoryMan/list_templates.c
index efb1d60..546cffb 100644
--- a/src/main/MemoryMan/list_templates.c
+++ b/src/main/MemoryMan/list_templates.c
@@ -72,13 +72,14 @@ void FN(push,LIST(TYP))(LIST(TYP) *v, TYP vi)
 /* append a list to a list */
 void FN(pushlist,LIST(TYP))(LIST(TYP) *v, LIST(TYP) *u)
 {
-  int i;
+  int i, nu;
 
   if (!v || !u) return;
-  v->n += u->n;
+  nu = u->n; /* save u->n, since it changes below if u=v */
+  v->n += nu;
   v->e = realloc(v->e, sizeof(TYP) * v->n); 
-  for (i = 0; i < u->n; i++)
-    v->e[v->n - u->n + i] = u->e[i];
+  for (i = 0; i < nu; i++)
+    v->e[v->n - nu + i] = u->e[i];
 }
 
 /* add to list (if not already in it) */
-- 
2.43.0


From 2472b5105901dff239d65a4badd5c1385ae6e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:48 +0000
Subject: [PATCH 09/42] fix: copying a grid makes room for the variables of the
 original

---
 src/main/MemoryMan/grid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/MemoryMan/grid.c b/src/main/MemoryMan/grid.c
index 53b2af3..b787d69 100644
--- a/src/main/MemoryMan/grid.c
+++ b/src/main/MemoryMan/grid.c
@@ -325,6 +325,10 @@ int copy_grid_withoutvars(tGrid *g_old, tGrid *g_new, int pr)
     printf("copy_grid_withoutvars:\n");
   }
 
+  /* make room for all vars of g_old */
+  if(g_new->nvariables < g_old->nvariables)
+    realloc_gridvariables(g_new, g_old->nvariables);
+
   /* copy struct tGRID */
   g_new->nboxes     = g_old->nboxes;
   g_new->ninactive  = g_old->ninactive;
-- 
2.43.0


From b67a4fb406a6681147980019ede8bcdf18ed7c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:11 +0000
Subject: [PATCH 10/42] fix: droplist can drop a list from itself

---
 src/main/MemoryMan/list_templates.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/MemoryMan/list_templates.c b/src/main/MemoryMan/list_templates.c
index 546cffb..ff274e2 100644
--- a/src/main/MemoryMan/list_templates.c
+++ b/src/main/MemoryMan/list_templates.c
@@ -138,6 +138,7 @@ void FN(droplastn,LIST(TYP))(LIST(TYP) *v, int n)
 void FN(droplist,LIST(TYP))(LIST(TYP) *v, LIST(TYP) *u)
 {
   int i;
+  if(u==v) { FN(droplastn,LIST(TYP))(v, v->n); return; } /* u would change */
   for(i=0; i<u->n; i++) FN(drop,LIST(TYP))(v, u->e[i]);
 }
 
-- 
2.43.0


From 0be3cc81804f86665741bd6e4e985939472261da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:11 +0000
Subject: [PATCH 11/42] fix: loops over point lists skip boxes without points

---
 src/main/MemoryMan/sgrid_MemoryMan_loops.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main/MemoryMan/sgrid_MemoryMan_loops.h b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
index 394f7bd..806215d 100644
--- a/src/main/MemoryMan/sgrid_MemoryMan_loops.h
+++ b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
@@ -76,12 +76,14 @@
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList(pointlist, boxindx, pi , ijk) \
   forallboxes(pointlist->grid,boxindx) \
-    for(pi = 0 , ijk = pointlist->point[boxindx][pi]; \
-        pi < pointlist->npoints[boxindx]; \
-        pi++, ijk = pointlist->point[boxindx][pi-(pi==pointlist->npoints[boxindx])])
+    for(pi = 0; \
+        pi < pointlist->npoints[boxindx] && \
+        (ijk = pointlist->point[boxindx][pi], 1); \
+        pi++)
 
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList_inbox(pointlist, box, pi , ijk) \
-  for(pi = 0 , ijk = pointlist->point[box->b][pi]; \
-        pi < pointlist->npoints[box->b]; \
-        pi++, ijk = pointlist->point[box->b][pi-(pi==pointlist->npoints[box->b])])
+  for(pi = 0; \
+        pi < pointlist->npoints[box->b] && \
+        (ijk = pointlist->point[box->b][pi], 1); \
+        pi++)
-- 
2.43.0


From 5252862a50c05bfe7e6c271131e89b8343d0f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:10 +0000
Subject: [PATCH 12/42] fix: duplicate of a point list has room for all box
 indices

---
 src/main/MemoryMan/points.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/MemoryMan/points.c b/src/main/MemoryMan/points.c
index a623b21..4d2cf9f 100644
--- a/src/main/MemoryMan/points.c
+++ b/src/main/MemoryMan/points.c
@@ -222,7 +222,7 @@ tPointList *DuplicatePointList_for_grid(tPointList *PL0, tGrid *grid)
   }
 
   /* copy the blist */
-  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL->nblist+2));
+  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL0->nblist+2));
   if(ret==NULL) 
     errorexit("DuplicatePointList: not enough memory for PL->blist");
   PL->blist  = ret;
-- 
2.43.0


From efea6ded9bb9ae4bf5b221023c01308c5456024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:09 +0000
Subject: [PATCH 13/42] fix: outer boundary faces in directions 2 and 3 use the
 last plane of that direction

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 596d8fa..5e5ac00 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -742,7 +742,9 @@ int add_boxface_as_outerbound_bface(tBox *box, int f)
   fi = add_empty_bface(box, f);
   box->bface[fi]->outerbound = 1; /* mark as outer boundary */
   dir = 1 + f/2;
-  p = ( (n1-1) )*(f%2);
+  if(dir==1)      p = ( (n1-1) )*(f%2);
+  else if(dir==2) p = ( (n2-1) )*(f%2);
+  else            p = ( (n3-1) )*(f%2); /* (dir==3) */
   forplaneN(dir, i,j,k, n1,n2,n3, p)
   {
     int ijk = Index(i,j,k);
-- 
2.43.0


From 9da509811183fdebe9b14a8e5762f5ab20680d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:07 +0000
Subject: [PATCH 14/42] fix: numbers of other faces that do not fit into an int
 are flagged in ofi

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 5e5ac00..0f5f86a 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -667,6 +667,14 @@ int r_from_cbt_OR_nbt(unsigned int cbt, unsigned int nbt)
   return r;
 }
 
+/* return 2^(ofi + 1), or 0 if this does not fit into an int, because a shift
+   by more bits than an int has is undefined and does not give 0 by itself */
+unsigned int bit_from_ofi(int ofi)
+{
+  if(ofi + 1 < 8 * ((int) sizeof(int)) - 1) return 1u<<(ofi+1);
+  return 0;
+}
+
 /* figure out how each bface is connected to other bfaces */
 /* Recall ofi=-1 means we do not know the other face index yet. Here
    we set ofi<-1 if box b OVERLAPS with several faces of box ob. This makes
@@ -708,9 +716,9 @@ int set_ofi_in_all_bfaces(tGrid *grid)
           else if(box->bface[fi]->ofi >= 0)
           {
             int c = box->bface[fi]->ofi;
-            unsigned int cbt = 1<<(c+1); /* cbt = 2^([current ofi] + 1) */
+            unsigned int cbt = bit_from_ofi(c); /* cbt = 2^([current ofi] + 1) */
             int n = ofi;
-            unsigned int nbt = 1<<(n+1); /* nbt = 2^([ofi to be added] + 1) */
+            unsigned int nbt = bit_from_ofi(n); /* nbt = 2^([ofi to be added] + 1) */
             int r = r_from_cbt_OR_nbt(cbt, nbt);
             box->bface[fi]->ofi=-r;
             /* if ofi<0 and odd there was an overflow in the bits!!! */
@@ -719,7 +727,7 @@ int set_ofi_in_all_bfaces(tGrid *grid)
           else
           {
             unsigned int cbt = -box->bface[fi]->ofi; /* get current bits */
-            unsigned int nbt = 1<<(ofi+1); /* nbt = 2^([ofi to be added] + 1) */
+            unsigned int nbt = bit_from_ofi(ofi); /* nbt = 2^([ofi to be added] + 1) */
             int r = r_from_cbt_OR_nbt(cbt, nbt);
             box->bface[fi]->ofi=-r;
             /* if ofi<0 and odd there was an overflow in the bits!!! */
-- 
2.43.0


From 9fcdb3701b12dfe1f60be524e715817b6a9bcdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 15/42] fix: integrators get the auxiliary variables their
 method and variable list need at any step

---
 src/utility/evolve/evolve.c | 53 ++++++++++++++++++++++++++-----------
 src/utility/evolve/evolve.h |  1 +
 src/utility/evolve/rk.c     | 12 +++------
 3 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/utility/evolve/evolve.c b/src/utility/evolve/evolve.c
index 9c72799..a75ab4c 100644
--- a/src/utility/evolve/evolve.c
+++ b/src/utility/evolve/evolve.c
@@ -62,6 +62,27 @@ void evolve_algebraicConditionsregister(void (*f)(tVarList *, tVarList *))
 }
 
 
+/* return a duplicate of varlist u with this postfix in the names: this is
+   dup itself if it belongs to u and the postfix, otherwise a new varlist */
+tVarList *evolve_update_duplicate(tVarList *dup, tVarList *u, char *postfix)
+{
+  char name[1000];
+  int i;
+
+  if(dup && dup->n == u->n)
+  {
+    for(i = 0; i < u->n; i++)
+    {
+      snprintf(name, 1000, "%s%s", VarName(u->index[i]), postfix);
+      if(strcmp(name, VarName(dup->index[i])) != 0) break;
+    }
+    if(i == u->n) return dup;
+  }
+  vlfree(dup);
+  return AddDuplicate(u, postfix);
+}
+
+
 /* evolve wrapper for function skeleton */
 int evolve(tGrid *grid) 
 {
@@ -81,25 +102,25 @@ int evolve(tGrid *grid)
   u_c->time = grid->time;
 
   /* add new variables before first time step */
-  if (grid->iteration == 0) {
+  if (grid->iteration == 0)
     printf("Adding variables for evolution:\n");
 
-    /* add additional variables */
-    if (Getv("evolution_method", "euler")) {
-      u_p = AddDuplicate(u_c, "_p");
-    }
-    if (Getv("evolution_method", "icn")) {
-      u_p = AddDuplicate(u_c, "_p");
-      u_q = AddDuplicate(u_c, "_q");
-    }
-    if (Getv("evolution_method", "rk")) {
-      u_p = AddDuplicate(u_c, "_p");
-    }
-    //if (Geti("amr_lmax") > 0) {
-    //  if (!u_p) AddDuplicate(u_c, "_p");
-    //  u_pp = AddDuplicate(u_c, "_pp");
-    //}
+  /* add additional variables, they are needed also if the run resumes
+     at a later iteration, or if the method or the varlist has changed */
+  if (Getv("evolution_method", "euler")) {
+    u_p = evolve_update_duplicate(u_p, u_c, "_p");
+  }
+  if (Getv("evolution_method", "icn")) {
+    u_p = evolve_update_duplicate(u_p, u_c, "_p");
+    u_q = evolve_update_duplicate(u_q, u_c, "_q");
+  }
+  if (Getv("evolution_method", "rk")) {
+    u_p = evolve_update_duplicate(u_p, u_c, "_p");
   }
+  //if (Geti("amr_lmax") > 0) {
+  //  if (!u_p) AddDuplicate(u_c, "_p");
+  //  u_pp = AddDuplicate(u_c, "_pp");
+  //}
 
   /* store current grid and time in existing variable lists */
   if (u_p) { u_p->grid = grid;  u_p->time = grid->time; }
diff --git a/src/utility/evolve/evolve.h b/src/utility/evolve/evolve.h
index 98266cd..c51bfa7 100644
--- a/src/utility/evolve/evolve.h
+++ b/src/utility/evolve/evolve.h
@@ -5,6 +5,7 @@
 extern tVarList *u_c, *u_p, *u_q, *u_r;
 
 int evolve(tGrid *grid);
+tVarList *evolve_update_duplicate(tVarList *dup, tVarList *u, char *postfix);
 int evolve_test_startup(tGrid *grid);
 int evolve_test_analyze(tGrid *grid);
 
diff --git a/src/utility/evolve/rk.c b/src/utility/evolve/rk.c
index 60a8fb8..e32dafc 100644
--- a/src/utility/evolve/rk.c
+++ b/src/utility/evolve/rk.c
@@ -225,7 +225,6 @@ void evolve_rk_rk4(tGrid *grid)
 /* explicit Runge-Kutta */
 void evolve_rk(tGrid *grid) 
 {
-  static int firstcall = 1;
   tButcher *rk;
   char s[3] = "_r";
   int i;
@@ -243,7 +242,7 @@ void evolve_rk(tGrid *grid)
   else if (Getv("evolution_method_rk", "midpoint")) rk = &rk2a;
   else if (Getv("evolution_method_rk", "euler"))    rk = &rk1;
   else
-    errorexits("unknown evolution_method_rk %s", s);
+    errorexits("unknown evolution_method_rk %s", Gets("evolution_method_rk"));
 
   /* catch special cases
      some methods are implemented without tables for efficiency */
@@ -251,13 +250,10 @@ void evolve_rk(tGrid *grid)
 
   /* add auxiliary fields to data base, no storage yet 
      incrementing second letter in s gives _r, _s, _t, ... */
-  if (firstcall) {
-    firstcall = 0;
-    for (i = 0; i < rk->nstages; i++, s[1]++) 
-      u_k[i] = AddDuplicate(u_c, s);
+  for (i = 0; i < rk->nstages; i++, s[1]++)
+    u_k[i] = evolve_update_duplicate(u_k[i], u_c, s);
 
-    if (0) prbutchertable(rk);
-  }
+  if (0) prbutchertable(rk);
 
   // strange bug? rk4 shadows rk4a
   // printf("%s, getv %d\n", Gets("evolution_method_rk"), Getv("evolution_method_rk", "rk3"));
-- 
2.43.0


From f46e417e994ba49eed28e9c7d9fb31914c3c2497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 16/42] fix: checkpoints keep the time with all its digits

---
 src/utility/checkpoint/checkpoint_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 300b044..8e3282f 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -81,7 +81,7 @@ void checkpoint_write_local(tGrid *g, FILE *fp)
   /* write one line text header, check with "head -1 checkpoint.0" */
   fprintf(fp, "$BEGIN_checkpoint_header:  ");
   fprintf(fp, "$bmin = %d , $bmax = %d , ", 0, g->nboxes-1);
-  fprintf(fp, "$time = %g , ", g->time);
+  fprintf(fp, "$time = %.17g , ", g->time);
   fprintf(fp, "$iteration = %d\n", g->iteration);
   fprintf(fp, "$END_checkpoint_header\n\n");
 
-- 
2.43.0


From ac06d873880aba20944d787a6d64216b5d359ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 17/42] fix: a resumed run uses the time step of its parameter
 dt

---
 src/utility/checkpoint/checkpoint_read.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint_read.c b/src/utility/checkpoint/checkpoint_read.c
index 4bdf915..381ca7f 100644
--- a/src/utility/checkpoint/checkpoint_read.c
+++ b/src/utility/checkpoint/checkpoint_read.c
@@ -32,7 +32,10 @@ void checkpoint_read(tGrid *g)
       tGrid *g2;
       /* get new pars */
       checkpoint_read_ParsAndIterations_local(g, fp);
- 
+
+      /* the time step is also kept in g */
+      g->dt = Getd("dt");
+
       /* make an empty temporary grid g2 */
       g2 = make_empty_grid(globalnvariables, 0);
       /* copy all from g (except vars) into g2 */
-- 
2.43.0


From 0d2740dc22cc39b85ed4a8655872c83ad620fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 18/42] fix: checkpoint intervals of zero or below the time
 step no longer divide by zero

---
 src/utility/checkpoint/checkpoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 23454ad..52beb8b 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -71,9 +71,13 @@ int checkpoint(tGrid *grid)
   /* determine how often we want to checkpoint */
   dt = Getd("checkpoint_dt");
   if (dt > 0)
+  {
     di = dt/grid->dt + dequaleps;
+    if (di < 1) di = 1;
+  }
   else
     di = Geti("checkpoint_di");
+  if (di <= 0) return 0; /* as in output: no interval, no checkpoint */
   if(pr) printf("di = %d\n", di);
   
   /* check whether it is time to write a checkpoint */
-- 
2.43.0


From f01c184f753d997356672b915a8854b0f0baf946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 19/42] fix: a checkpoint that could not be written completely
 does not replace the old one

---
 src/utility/checkpoint/checkpoint_write.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 8e3282f..d05f4f0 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -23,7 +23,7 @@ void checkpoint_write(tGrid *g)
   char *filename = checkpoint_filename("", "w");
   char *filename_new;
   FILE *fp;
-  int i;
+  int i, err;
 
   /* name of backup file */
   filename_new = cmalloc(strlen(filename) + 20);
@@ -43,8 +43,9 @@ void checkpoint_write(tGrid *g)
       prTimeIn_s("WallTime: ");
       checkpoint_write_local(g, fp);
 
-      /* done */
-      fclose(fp);
+      /* done, never replace the old file if anything went wrong */
+      err = ferror(fp);
+      if (fclose(fp) != 0 || err) errorexits("failed writing %s", filename_new);
     }
     /* everyone please wait here */
     sgrid_mpi_barrier();
-- 
2.43.0


From 6bb172483038b760af342193231fe3ffd1133f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 20/42] fix: a resumed run keeps the command line options it
 was started with

---
 src/utility/checkpoint/sgrid_checkpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/sgrid_checkpoint.c b/src/utility/checkpoint/sgrid_checkpoint.c
index 48fde73..bc2bf6c 100644
--- a/src/utility/checkpoint/sgrid_checkpoint.c
+++ b/src/utility/checkpoint/sgrid_checkpoint.c
@@ -27,7 +27,7 @@ int sgrid_checkpoint(void)
 	 "run for that much beyond previous checkpoint");
   AddPar("checkpoint_no_read_parlist",
          "checkpoint finaltime iterations outdir parameterfile "
-         "iterate_parameters checkpoint_no_read_parlist",
+         "iterate_parameters checkpoint_no_read_parlist sgrid_options",
 	 "list of parameters that are not read from checkpoint");
 
   AddPar("checkpoint_variables", "auto",
-- 
2.43.0


From cf659c6c91060dd29c0cc4b06b433581d67fbf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 21/42] fix: copying the previous output on restart never
 leaves a partial copy as output directory

---
 src/utility/checkpoint/checkpoint.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 52beb8b..fdc1728 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -221,17 +221,29 @@ void checkpoint_copy_output(void)
   /* the regular output is all done through processor 0 */
   if (processor0) {
     
+    int keep = !Getv("checkpoint_previous", "no") ||
+               GetvLax("sgrid_options", "--keep_previous");
+    char *copy = cmalloc(strlen(current) + 5);
+
+    /* copy previous output if we keep it, under another name so that there
+       is never a partial copy in the place of the output directory */
+    sprintf(copy, "%s_new", current);
+    if(keep)
+    {
+      system2("rm -rf", copy);
+      if(system3("cp -pr", previous, copy) != 0)
+        errorexits("failed copying previous output into %s", copy);
+    }
+
     /* remove current output directory
        it only contains iteration 0 and perhaps 1 of the restarted run 
     */
     system2("rm -rf", current);
 
-    /* move or copy previous output */
-    if( Getv("checkpoint_previous", "no") &&
-       !GetvLax("sgrid_options", "--keep_previous") )
-      system3("mv", previous, current);
-    else
-      system3("cp -pr", previous, current);
+    /* move previous output or its copy */
+    if(keep)  system3("mv", copy, current);
+    else      system3("mv", previous, current);
+    free(copy);
   }
   /* wait here to make sure proc0 has copied all there is */
   sgrid_mpi_barrier();
-- 
2.43.0


From db9dd46001c61f75dc20b8655d65dfc11ce14fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 22/42] fix: directories with absolute or long names are
 removed, links in them are not followed

---
 src/main/main/utilities.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/main/main/utilities.c b/src/main/main/utilities.c
index 3cfaf03..e5bfeb6 100644
--- a/src/main/main/utilities.c
+++ b/src/main/main/utilities.c
@@ -318,8 +318,10 @@ int remove_dir(char *which_dir)
 {
   DIR           *d;
   struct dirent *dir;
-  char file[1000];
-  
+  char *file;
+  struct stat st;
+  int status;
+
   d = opendir(which_dir);
   if(d)
   {
@@ -329,19 +331,19 @@ int remove_dir(char *which_dir)
       if( strcmp( dir->d_name, "." ) == 0 || strcmp( dir->d_name, ".." ) == 0)
         continue;
 
-      snprintf(file, 999, "./%s/%s", which_dir, dir->d_name);
+      file = cmalloc(strlen(which_dir) + strlen(dir->d_name) + 2);
+      sprintf(file, "%s/%s", which_dir, dir->d_name);
       //printf("*"); //print * for every deleted file
 
-      if(opendir(file)!=NULL) remove_dir(file);
-      else
+      /* go into dirs, but not through links, and remove anything else */
+      if(lstat(file, &st)==0 && S_ISDIR(st.st_mode)) status = remove_dir(file);
+      else                                           status = remove(file);
+      free(file);
+      if(status != 0)
       {
-        if(remove(file) != 0)
-        {
-          //printf("\n%s\n", file);
-          //perror("Remove failed");
-          closedir(d);
-          return -2;
-        }
+        //perror("Remove failed");
+        closedir(d);
+        return -2;
       }
     } /* end of while loop */
 
-- 
2.43.0


From a2a421f50555a0a59b22d439792d2b0e13065c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 23/42] fix: runs of a parameter scan treat earlier output as
 other runs do

---
 src/main/main/main.c       | 35 +++++++++++++++++++++++------------
 src/main/main/main.h       |  1 +
 src/main/main/parameters.c | 11 +++--------
 3 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/main/main/main.c b/src/main/main/main.c
index ff5d075..f9b55b6 100644
--- a/src/main/main/main.c
+++ b/src/main/main/main.c
@@ -262,7 +262,8 @@ int read_command_line(int argc, char **argv)
   return 0;
 }
 
-int make_output_directory(void)
+/* move away the output directory of an earlier run and make a new one */
+int make_new_outdir(void)
 {
   char *outdir  = Gets("outdir");
   char *outdirp = (char *) calloc(strlen(outdir)+40, sizeof(char));
@@ -271,15 +272,6 @@ int make_output_directory(void)
   strcpy(outdirp, outdir);
   strcat(outdirp, "_previous");
 
-  /* check if a shell is available to execute commands later */
-  /* NOTE: system2 and system3 are smart enough to do "mkdir", "rm -rf"
-           and "mv" even without a shell by using POSIX calls. */
-  if(system(NULL)==0)
-  {
-    printf("WARNING: system(NULL)=0 => cannot execute shell commands!\n");
-    printf("         Consider using system_emu.\n");
-  }
-
   /* check if we remove outdir_previous */
   if(!GetvLax("sgrid_options", "--keep_previous"))
   {
@@ -307,8 +299,28 @@ int make_output_directory(void)
     system3("mv", outdir, outdirp);
   }
 
-  /* make output directory, save parfile */
+  /* make output directory */
   system2("mkdir", outdir);
+
+  free(outdirp);
+  return 0;
+}
+
+int make_output_directory(void)
+{
+  char *outdir  = Gets("outdir");
+
+  /* check if a shell is available to execute commands later */
+  /* NOTE: system2 and system3 are smart enough to do "mkdir", "rm -rf"
+           and "mv" even without a shell by using POSIX calls. */
+  if(system(NULL)==0)
+  {
+    printf("WARNING: system(NULL)=0 => cannot execute shell commands!\n");
+    printf("         Consider using system_emu.\n");
+  }
+
+  /* make output directory, save parfile */
+  make_new_outdir();
   /* system3("cp", Gets("parameterfile"), outdir); */
   copy_file_into_dir(Gets("parameterfile"), outdir);
 
@@ -323,7 +335,6 @@ int make_output_directory(void)
     freopen(s, "w", stderr);
   }
 
-  free(outdirp);
   return 0;
 }
 
diff --git a/src/main/main/main.h b/src/main/main/main.h
index e7d0842..bb89dd7 100644
--- a/src/main/main/main.h
+++ b/src/main/main/main.h
@@ -9,6 +9,7 @@ int get_next_argument_line(int argc, char **argv, char *buffer,
 int read_command_line(int argc, char **argv);
 int parse_command_line_options(void);
 int make_output_directory(void);
+int make_new_outdir(void);
 int initialize_grid(tGrid *g);
 int evolve_grid(tGrid *grid);
 tGrid *finalize_grid(tGrid *g);
diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 23c5353..1207b57 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -15,6 +15,7 @@
 
 #include <ctype.h>
 #include "sgrid.h"
+#include "main.h"
 
 
 
@@ -546,7 +547,7 @@ int iterate_parameters(int next)
   tParameter *p;
   char *list, *name, *newvalue, *value;
   char iterpar[100] = "iterate_parameter1";
-  char newoutdir[10000], *outdirp;
+  char newoutdir[10000];
   int i, j, l;
 
   /* reset ncall to zero if next=0 */
@@ -614,13 +615,7 @@ int iterate_parameters(int next)
   if (newvalue) {
     printf("Starting iteration %d\n", ncall);
     if (1) printf("  outdir = %s\n", Gets("outdir"));
-    outdirp = (char *) calloc(strlen(newoutdir)+40, sizeof(char));
-    strcpy(outdirp, newoutdir);
-    strcat(outdirp, "_previous");
-    system2("rm -rf", outdirp);
-    system3("mv", newoutdir, outdirp); 
-    system2("mkdir", newoutdir);
-    free(outdirp);
+    make_new_outdir();
     ncall++;
     return 1;
   }
-- 
2.43.0


From a740e822edd24aa6c8e86b9cb975e07fed456e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 24/42] fix: output directories of a parameter scan lose only
 the .par at the end of the name

---
 src/main/main/parameters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 1207b57..f898396 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -570,7 +570,8 @@ int iterate_parameters(int next)
   printf("Iterating parameters:\n");
 
   sprintf(newoutdir, "%s", Gets("parameterfile"));
-  *strstr(newoutdir, ".par") = '\0';
+  l = strlen(newoutdir);
+  if(l>=4 && strcmp(newoutdir+l-4, ".par")==0) newoutdir[l-4] = '\0';
 
   p = findparameter(iterpar, 0);
   if (!p)
-- 
2.43.0


From d13e30846b5392107f12f9607bc0ea4f40cbf07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 25/42] fix: any number of command line options fits

---
 src/main/main/main.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/main/main.c b/src/main/main/main.c
index f9b55b6..36c54d5 100644
--- a/src/main/main/main.c
+++ b/src/main/main/main.c
@@ -207,7 +207,7 @@ int read_command_line(int argc, char **argv)
     int nopts, nargs;
     char argi[1000];
     char descr[1000];
-    char options[1000];
+    char *options; /* has room for all args */
     char *parfile = (char *) calloc(strlen(argv[1])+40, sizeof(char));
     char *outdir  = (char *) calloc(strlen(argv[1])+40, sizeof(char));
     int parnamelen;
@@ -230,7 +230,8 @@ int read_command_line(int argc, char **argv)
 
     /* add other args */
     nargs=nopts=0;
-    options[0]=0;
+    for(i=0, parnamelen=0; i<argc; i++) parnamelen += strlen(argv[i]) + 1;
+    options = (char *) calloc(parnamelen+1, sizeof(char));
     for(i=2; i<argc; i++)
     {
       if(argv[i][0]=='-')
@@ -238,8 +239,8 @@ int read_command_line(int argc, char **argv)
         if(strlen(argv[i])==1) errorexit("- is not a valid option");
         if(argv[i][1]!='-') errorexit("all options must start with --");
         /* save all options in options */
-        if(nopts>0) strncat(options, " ", 999);
-        strncat(options, argv[i], 999);
+        if(nopts>0) strcat(options, " ");
+        strcat(options, argv[i]);
         nopts++;
       }
       else
@@ -253,6 +254,7 @@ int read_command_line(int argc, char **argv)
     /* add sgrid command line options */
     if(nopts>0) AddPar("sgrid_options", options, "sgrid command line options");
 
+    free(options);
     free(parfile);
     free(outdir);
   }
-- 
2.43.0


From e4caa62afdbb12b739527b917a9dc94165cf771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 26/42] fix: a checkpoint with other boxes than the run is
 refused

---
 src/utility/checkpoint/checkpoint_read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/checkpoint/checkpoint_read.c b/src/utility/checkpoint/checkpoint_read.c
index 381ca7f..396ae39 100644
--- a/src/utility/checkpoint/checkpoint_read.c
+++ b/src/utility/checkpoint/checkpoint_read.c
@@ -107,6 +107,8 @@ void checkpoint_read_ParsAndIterations_local(tGrid *grid, FILE *fp)
   fgetparameter(fp, "$iteration", value); grid->iteration = atoi(value);
   printf("found $bmin = %d , $bmax = %d , $time = %g, $iteration = %d\n",
          bmin, bmax, grid->time, grid->iteration);
+  if(bmin != 0 || bmax != grid->nboxes-1)
+    errorexit("boxes in checkpoint file are not what they should be!");
 
   /* read parameter database
      some parameters are used like global variables and change during evolution
@@ -197,6 +199,8 @@ void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
 
     fgetparameter(fp, "box", value);
     l = atoi(value);
+    if(l<0 || l>=grid->nboxes)
+      errorexit("box in checkpoint file is not what it should be!");
     box = grid->box[l];
     if(l != lold)
     {
-- 
2.43.0


From cc39491a79be796d35ae1d1a3f749adb645ed57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 27/42] fix: an incomplete checkpoint is refused

---
 src/utility/checkpoint/checkpoint_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utility/checkpoint/checkpoint_read.c b/src/utility/checkpoint/checkpoint_read.c
index 396ae39..1c81030 100644
--- a/src/utility/checkpoint/checkpoint_read.c
+++ b/src/utility/checkpoint/checkpoint_read.c
@@ -237,6 +237,11 @@ void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
       for(j=1; j<=nnodes_on_l*sizeof(double)/sizeof(char); j++) fgetc(fp);
     }
   }
+  /* we are at the end of the file, make sure it was complete */
+  if(fseek(fp, -16L, SEEK_END)!=0 || fread(value, 1, 16, fp)!=16 ||
+     strncmp(value, "$END_variables\n\n", 16)!=0)
+    errorexit("$END_variables is missing!");
+
   /* info */
   if(1)
   {
-- 
2.43.0


From 75601ac8594c895d98b1e1208f76d60bf761d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 28/42] fix: a resumed run without its output directory stops

---
 src/utility/checkpoint/checkpoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index fdc1728..f65f419 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -241,8 +241,8 @@ void checkpoint_copy_output(void)
     system2("rm -rf", current);
 
     /* move previous output or its copy */
-    if(keep)  system3("mv", copy, current);
-    else      system3("mv", previous, current);
+    if(system3("mv", keep ? copy : previous, current) != 0)
+      errorexits("failed moving previous output to %s", current);
     free(copy);
   }
   /* wait here to make sure proc0 has copied all there is */
-- 
2.43.0


From 2064abd7d10f90c8b067bff8bece8d00f1de5146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 29/42] fix: an output directory that cannot be moved away is
 not written over

---
 src/main/main/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/main/main.c b/src/main/main/main.c
index 36c54d5..fae5252 100644
--- a/src/main/main/main.c
+++ b/src/main/main/main.c
@@ -3,6 +3,7 @@
 
 #include "sgrid.h"
 #include "main.h"
+#include <sys/stat.h>
 
 /* global vars: */
 tGrid *SGRID_grid = NULL;      /* to save the grid */
@@ -269,6 +270,7 @@ int make_new_outdir(void)
 {
   char *outdir  = Gets("outdir");
   char *outdirp = (char *) calloc(strlen(outdir)+40, sizeof(char));
+  struct stat st;
 
   /* set outdirp to outdir_previous */
   strcpy(outdirp, outdir);
@@ -298,7 +300,8 @@ int make_new_outdir(void)
   
     /* remove outdir_previous and move outdir to outdir_previous */
     system2("rm -rf", outdirp);
-    system3("mv", outdir, outdirp);
+    if(system3("mv", outdir, outdirp)!=0 && stat(outdir, &st)==0)
+      errorexits("cannot move old output directory %s out of the way", outdir);
   }
 
   /* make output directory */
-- 
2.43.0


From c2a0a659f8615892124b3078886eb9379f18c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 30/42] fix: only whole words are taken for command line
 options, malformed ones are refused, blank lines of arguments are skipped

---
 src/main/main/main.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/main/main/main.c b/src/main/main/main.c
index fae5252..14f8479 100644
--- a/src/main/main/main.c
+++ b/src/main/main/main.c
@@ -160,6 +160,7 @@ int get_next_argument_line(int argc, char **argv, char *buffer,
     ret = fscanline(fp, line);
     if(ret==EOF) { fclose(fp); fp=NULL; arglinenum=0; return 0;}
     if(ret>0) if(line[0]=='#') ret=0; /* skip lines starting with # */
+    if(ret>0) if(line[strspn(line, " \t\r")]==0) ret=0; /* skip blank lines */
   } while(ret==0);
 
   /* str = argv[0] + line */
@@ -362,13 +363,17 @@ int parse_command_line_options(void)
   str1 = optionstr;
   while( (str1=strstr(str1, "--modify-par:"))!=NULL )
   {
+    /* this is an option only at the beginning or after a space */
+    if(str1>optionstr && str1[-1]!=' ') { str1+=13; continue; }
     str1+=13;
-    str2=strstr(str1, "=");
-    if(str2==NULL) break;
-    str2[0]=0; /* replace = with 0 */
     par=str1;
-    val=str2+1;
-    str2=strstr(val, " --");
+    val=strstr(par, "=");
+    str2=strstr(par, " --"); /* start of next option */
+    if(val==NULL || val==par || (str2!=NULL && val>str2))
+      errorexits("option must be of the form --modify-par:P=v, not --modify-par:%s",
+                 par);
+    val[0]=0; /* replace = with 0 */
+    val++;
     if(str2!=NULL) str2[0]=0; /* now val is 0 terminated for sure */
     if(0) printf("par=%s|val=%s|\n", par,val);
     
-- 
2.43.0


From 8d421e6a7eaa5bebe2c1dc392fc872d13cf6052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 31/42] fix: lists of output variables are read correctly
 whatever blanks are between them

---
 src/utility/output/output.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/utility/output/output.c b/src/utility/output/output.c
index 4e3a4a7..84af510 100644
--- a/src/utility/output/output.c
+++ b/src/utility/output/output.c
@@ -276,13 +276,12 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len=0;
       int vi;
 
-      while(sscanf(ou[0]+start, "%s", str)==1)
+      while(sscanf(ou[0]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[0][start]==' ') start++;
+        start += len;
   
         /* check if str has an index that exists */
         vi = IndLax(str);
@@ -314,14 +313,13 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len=0;
       int vi;
 
       //printf("1dout ... |%s|\n", ou[1]);
-      while(sscanf(ou[1]+start, "%s", str)==1)
+      while(sscanf(ou[1]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[1][start]==' ') start++;
+        start += len;
         //printf("1dout |%s|\n",str);
   
         /* check if str has an that index exists */
@@ -354,14 +352,13 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len=0;
       int vi;
 
       //printf("2dout ... |%s|\n", ou[2]);
-      while(sscanf(ou[2]+start, "%s", str)==1)
+      while(sscanf(ou[2]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[2][start]==' ') start++;
+        start += len;
         //printf("2dout |%s|\n", str);
         
         /* check if str has an index that exists */
@@ -394,14 +391,13 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len=0;
       int vi;
 
       //printf("3dout ... |%s|\n", ou[3]);
-      while(sscanf(ou[3]+start, "%s", str)==1)
+      while(sscanf(ou[3]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[3][start]==' ') start++;
+        start += len;
         //printf("3dout |%s|\n", str);
         
         /* check if str has an index that exists */
-- 
2.43.0


From 2ff0211c5f2438edb3f5a2aa15f0f8071ff66f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 32/42] fix: NumberChecker: report the end of a stretch of NANs
 in its own box

---
 src/utility/NumberChecker/NumberChecker.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utility/NumberChecker/NumberChecker.c b/src/utility/NumberChecker/NumberChecker.c
index 92a6358..b4c0e18 100644
--- a/src/utility/NumberChecker/NumberChecker.c
+++ b/src/utility/NumberChecker/NumberChecker.c
@@ -96,6 +96,14 @@ num = 0.0;
         messageflag=0;
       }
     }
+    /* a stretch of NANs ends at the end of its box */
+    if(messageflag>1)
+      printf("NAN/INF: %s=%g til    %d: x=%g y=%g z=%g "
+             "box%d grid=%p X=%g Y=%g Z=%g\n",
+             VarName(ivar), var[ijk_old], ijk_old,
+             x[ijk_old], y[ijk_old], z[ijk_old],
+             b_old, grid_old, X[ijk_old], Y[ijk_old], Z[ijk_old]);
+    messageflag=0;
   }
   if(num>0)
   {
-- 
2.43.0


From a52da23128743c2db6ee37d21025e90f7c9585cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 33/42] fix: bicgstab: free temporaries on early return, report
 success when converged with omega=0

---
 src/utility/GridIterators/bicgstab.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utility/GridIterators/bicgstab.c b/src/utility/GridIterators/bicgstab.c
index e8cc0ae..7403df0 100644
--- a/src/utility/GridIterators/bicgstab.c
+++ b/src/utility/GridIterators/bicgstab.c
@@ -57,10 +57,10 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
     }
   *normres = norm2(r);
   if (pr) printf("bicgstab: %5d  %10.3e\n", 0, *normres);
-  if (*normres <= tol) return 0;
 
-  /* cgs iteration */
-  for (ii = 0; ii < itmax; ii++) {
+  /* cgs iteration, unless we are done already */
+  ii = -1;
+  if (!(*normres <= tol)) for (ii = 0; ii < itmax; ii++) {
     rho = dot(rt, r);
     if (fabs(rho) < rhotol) break;
 
@@ -154,6 +154,9 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   VLDisableFree(t);
   VLDisableFree(v);
 
+  /* success! */
+  if (*normres <= tol) return ii+1;
+
   /* iteration failed */
   if (ii > itmax) return -1;
 
@@ -161,7 +164,7 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   if (fabs(rho) < rhotol) return -10;
   if (fabs(omega) < omegatol) return -11;
 
-  /* success! */
+  /* still *normres > tol after itmax iterations */
   return ii+1;
 }
 
-- 
2.43.0


From 61cc34feb83f705221a9a8a5412ede87cf5e808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 34/42] fix: matrix_SOR, WTiterator: free work arrays when
 there is nothing to do

---
 src/utility/GridIterators/SOR.c      | 2 +-
 src/utility/GridIterators/WTsolver.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/GridIterators/SOR.c b/src/utility/GridIterators/SOR.c
index 7d67674..d7128d6 100644
--- a/src/utility/GridIterators/SOR.c
+++ b/src/utility/GridIterators/SOR.c
@@ -64,7 +64,7 @@ int matrix_SOR(tSparseVector **Aline, int nlines,
            nlines, omega, itmax, tol);
     printf("matrix_SOR: step %d  residual=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol) { free(f); return 0; }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
diff --git a/src/utility/GridIterators/WTsolver.c b/src/utility/GridIterators/WTsolver.c
index 3f6d258..55221f7 100644
--- a/src/utility/GridIterators/WTsolver.c
+++ b/src/utility/GridIterators/WTsolver.c
@@ -106,7 +106,7 @@ int WTiterator(tSparseVector **Aline, int nlines,
   { 
     printf("WTiterator: %d  res=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol) { free(mm); free(f); free(dx); return 0; }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
-- 
2.43.0


From c0ddd5bd5b8107e6b70bb09be58dbb8a37ff5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 35/42] fix: min_brak: stop if the function is not a number

---
 src/utility/numerics/minbrent_brak.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/minbrent_brak.c b/src/utility/numerics/minbrent_brak.c
index c452d8e..76fedb6 100644
--- a/src/utility/numerics/minbrent_brak.c
+++ b/src/utility/numerics/minbrent_brak.c
@@ -139,7 +139,7 @@ int min_brak(double (*func)(double x, void *p), void *par,
 
   for(iter=1; iter<=maxits; iter++)
   {
-    if(*fb <= *fc) break;
+    if(!(*fb > *fc)) break; /* stop also if there is a NAN */
 
     r = (*bx-*ax)*(*fb-*fc);
     q = (*bx-*cx)*(*fb-*fa);
-- 
2.43.0


From 0b54e84bb548e89bec50d9f9298b79ae14260a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 36/42] fix: Newton: recompute F(u) before trying another
 linear solver, take best step tried

---
 src/utility/GridIterators/Newton.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/utility/GridIterators/Newton.c b/src/utility/GridIterators/Newton.c
index 44787e9..6875673 100644
--- a/src/utility/GridIterators/Newton.c
+++ b/src/utility/GridIterators/Newton.c
@@ -18,6 +18,8 @@ typedef struct tNEWTONSTEPVARS {
   tVarList *vld1;
   tVarList *vld2;
   tVarList *vltemp;
+  double lbest;     /* best lambda tried so far */
+  double resbest;   /* Newton residual for lambda=lbest */
 } tNewtonStepVars;
 
 
@@ -167,6 +169,12 @@ int Newton(
             printf("     (char %d-%d in GridIterators_Newton_linSolvers)\n",
                    p0, linSolverPos);
             linSolverOK=0;
+
+            /* vlu may have changed, and vlFu may be from some trial step.
+               So recompute F(u) before solving again. */
+            Fu(vlFu, vlu, vlc1, vlc2);
+            res = norm2(vlFu);
+            *normres = res;
             linSolver1 = get_linSolver_by_name(word);
           }
           free(word);
@@ -255,13 +263,22 @@ void do_random_Newton_step(tVarList *vlu, double eps, tVarList *vldu)
 double Newton_residual_of_lambda(double lambda, void *p)
 {
   tNewtonStepVars *pars;
+  double res;
   pars = (tNewtonStepVars *) p;
 
   /* set vlu = vltemp */  
   vlcopy(pars->vlu, pars->vltemp);
   do_partial_Newton_step(pars->vlu, lambda, pars->vldu);
   pars->Fu(pars->vlFu, pars->vlu, pars->vlc1, pars->vlc2);
-  return norm2(pars->vlFu);
+  res = norm2(pars->vlFu);
+
+  /* remember the best lambda */
+  if(res <= pars->resbest || pars->resbest != pars->resbest)
+  {
+    pars->lbest   = lambda;
+    pars->resbest = res;
+  }
+  return res;
 }
 
 /* do one Newton step and with backtracking if needed */
@@ -324,6 +341,8 @@ exit(5);
       pars->vld1 = vld1;
       pars->vld2 = vld2;
       pars->vltemp = vltemp;
+      pars->lbest  = 0.0;   /* full step */
+      pars->resbest= resc;
       p = (void *) pars;
 
       /* bracket the min */
@@ -336,7 +355,9 @@ exit(5);
                                       tol, &lmin, p);
       /* if(lmin < bl) lambda = bl;
          else          lambda = lmin; */
-      lambda = lmin;
+      /* brent only finds the local min in the bracket (al,bl,cl), but we have
+         also tried other lambda, so use the best one of all */
+      lambda = pars->lbest;
       if(pr)
       {
         printf("do_Newton_step:  mnbrak -> (al,bl,cl)=(%g,%g,%g), "
-- 
2.43.0


From b2bc4bcf6954380fa32303bbc76a84fa4df6d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 37/42] fix: same_fpts needs as many points in this face entry
 as in the other

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 0f5f86a..46f9626 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1126,7 +1126,8 @@ int set_bits_in_all_bfaces(tGrid *grid)
       }
 
       /* now check if ofpts is the same as obface->fpts */
-      if(ofpts->npoints[obox->b] == obface->fpts->npoints[obox->b])
+      if(ofpts->npoints[obox->b] == obface->fpts->npoints[obox->b] &&
+         fpts->npoints[box->b] == obface->fpts->npoints[obox->b])
       {
         /* make an intList point at the list in obface->fpts */
         ilist->n = obface->fpts->npoints[obox->b];
-- 
2.43.0


From 0f232a922af8b7e27be8802420c32e07363e2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 38/42] fix: compare numbers of face points of the right boxes
 if b0 is not 0

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 46f9626..1d4f47d 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1773,7 +1773,7 @@ int set_touching_bfaces_of_boxes_with_same_facepoints(tGrid *grid, int b0, int n
 ////write_grid(grid);
           /* check if there are the same number of points in both fpts */
           if(bface2->fpts != NULL &&
-             bface->fpts->npoints[b] == bface2->fpts->npoints[b2])
+             bface->fpts->npoints[b0+b] == bface2->fpts->npoints[b0+b2])
           {
             ifaces++; /* count the number of interfaces */
 
-- 
2.43.0


From 94d22b89c150ad521fbf8922ec36d7001d5e4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 39/42] fix: do not toggle setnormalderiv in bfaces that do not
 touch their other box

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 1d4f47d..be2cc3e 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1447,6 +1447,9 @@ int toggle_setnormalderiv_flag_in_faces4_5_of_cubes(tGrid *grid)
         /* do something only on face 4 and 5 */
         if((f == 4) || (f == 5))
         {
+          /* a bface that does not touch its other box cannot use derivs */
+          if(ob>=0 && !bface->touch) continue;
+
           if(bface->setnormalderiv) bface->setnormalderiv = 0;
           else                      bface->setnormalderiv = 1;
         }
-- 
2.43.0


From b288663591065ca16ebed9beaedd3821ee58ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 40/42] fix: check also the point after one that was dropped
 from a bface

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index be2cc3e..953da65 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1390,6 +1390,8 @@ int remove_bfacepoints_that_cause_inconsistent_touch_bits(tGrid *grid)
               {
                 DropFromPointList(fpts, b, ind);
                 drppd++;
+                pi--; /* next point has moved to where ind was */
+                break;
               }
             }
           }
-- 
2.43.0


From 4edcdd32e16a923a889f3c728399aff94f6e85ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 41/42] fix: an empty list of parameters ended
 checkpoint_interpolate_Vars_get_Pars with an error

---
 src/utility/checkpoint/read_other_checkpoints.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/read_other_checkpoints.c b/src/utility/checkpoint/read_other_checkpoints.c
index 92f2c31..0aa4b89 100644
--- a/src/utility/checkpoint/read_other_checkpoints.c
+++ b/src/utility/checkpoint/read_other_checkpoints.c
@@ -83,7 +83,8 @@ void checkpoint_interpolate_Vars_get_Pars(char *filename,
   /* loop over pars in parlist */
   printf("Setting the following parameters in pdb to values from pdb2:\n");
   NextEntry(0);
-  while( (par=NextEntry(parlist)) != NULL)
+  /* skip leading spaces, since NextEntry cannot deal with them */
+  while( (par=NextEntry(parlist + strspn(parlist, " "))) != NULL)
   {
     /* swap parameter databases, so that we can use e.g. Gets on pdb2 */
     swap_tParameter_pointers(&pdb, &pdb2);
-- 
2.43.0


From aab8e1a52454ba459db3e13e1f75c1251341269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:12 +0000
Subject: [PATCH 42/42] fix: b_XYZ_of_xyz found places without coordinates (the
 centre of a cubed sphere) in a box, at coordinates that are not numbers

---
 src/utility/Coordinates/findXYZ_of_xyz.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/Coordinates/findXYZ_of_xyz.c b/src/utility/Coordinates/findXYZ_of_xyz.c
index 9c7b7d1..cc7d961 100644
--- a/src/utility/Coordinates/findXYZ_of_xyz.c
+++ b/src/utility/Coordinates/findXYZ_of_xyz.c
@@ -302,6 +302,7 @@ int b_XYZ_of_xyz(tGrid *grid, double *X, double *Y, double *Z,
     X1=*X; Y1=*Y; Z1=*Z;
     stat = XYZ_of_xyz(box, &X1,&Y1,&Z1, x,y,z);
     if(stat<0) continue;
+    if(!isfinite(X1) || !isfinite(Y1) || !isfinite(Z1)) continue;
     if(dless(X1,box->bbox[0]) || dless(box->bbox[1],X1)) continue;
     if(dless(Y1,box->bbox[2]) || dless(box->bbox[3],Y1)) continue;
     if(dless(Z1,box->bbox[4]) || dless(box->bbox[5],Z1)) continue;
@@ -341,6 +342,7 @@ int b_XYZ_of_xyz_inboxlist(tGrid *grid, int *blist, int nb,
 //if(!finit(X1) || !finit(Y1) || !finit(Z1))
 //errorexit("not finite");
     if(stat<0) continue;
+    if(!isfinite(X1) || !isfinite(Y1) || !isfinite(Z1)) continue;
     if(dless(X1,box->bbox[0]) || dless(box->bbox[1],X1)) continue;
     if(dless(Y1,box->bbox[2]) || dless(box->bbox[3],Y1)) continue;
     if(dless(Z1,box->bbox[4]) || dless(box->bbox[5],Z1)) continue;
-- 
2.43.0

