/* drv_bc.c: conditions between boxes and on outer boundaries */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "drv.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#define A(i) atoi(v[i])
static tGrid *BG; static int bcvars_done;
static const char *CO[] = { "x", "y", "z", "X", "Y", "Z" };
static void bc_vars(void)
{
  int k; char s[20]; static const char *D[] = { "x", "y", "z" }, *B[] = { "X", "Y", "Z" }; int j;
  if(bcvars_done++) return;
  AddPar("storage_verbose", "no", "");
  for(k = 0; k < 6; k++) AddVar((char *)CO[k], "", "");
  for(k = 0; k < 3; k++) for(j = 0; j < 3; j++) { sprintf(s, "d%sd%s", B[k], D[j]); AddVar(s, "", ""); }
  AddVar("psi", "", ""); AddVar("psix", "", ""); AddVar("psiy", "", ""); AddVar("psiz", "", ""); AddVar("fpsi", "", "");
  for(k = 1; k <= 6; k++) { sprintf(s, "w%d", k); AddVar(s, "", ""); }
}
static int nums(char *t, double *x)
{
  char *s, *p; int n = 0; for(p = strtok_r(t, ",", &s); p; p = strtok_r(NULL, ",", &s)) x[n++] = atof(p); return n;
}
static const double VEC[7][3] = { {3,4,0}, {2,-1,2}, {0,0,-2}, {0,0,0}, {-6,2,3}, {1,0,0}, {0,-4,3} };
static double bas(void *aux, double a, double b, int k, int n, double X) { (void)aux; return fmod((k + 1) * X + k * k + a + 2 * b + n, 7); }
/* X of a point is its index, Y the double, Z the triple */
static double look(void *aux, int ind, double X, double Y, double Z, int s, int j)
{
  (void)aux; if(Y != 2 * X || Z != 3 * X) res("!xyz"); if(ind != -1) res("!ind"); return VEC[((int)X + s) % 7][j - 1];
}
#define ONE(d,j) static double dX##d##j(void *a, int i, double X, double Y, double Z) { return look(a, i, X, Y, Z, d, j); } \
 static double dx##j##d(void *a, int i, double X, double Y, double Z) { return look(a, i, X, Y, Z, 3 + d, j); }
ONE(1,1) ONE(1,2) ONE(1,3) ONE(2,1) ONE(2,2) ONE(2,3) ONE(3,1) ONE(3,2) ONE(3,3)
static double notcart(void *a, int i, double X, double Y, double Z) { (void)a; (void)i; (void)X; (void)Y; (void)Z; res("!x"); return 0; }
static void c_bc_grid(int c, char **v) { bc_vars(); BG = alloc_grid(A(1), globalnvariables); res("ok"); }
/* bc_box b n1 n2 n3 lo1 lo2 lo3 hi1 hi2 hi3 kind hasH M1 M2 M3 */
static void c_bc_box(int c, char **v)
{
  int b = A(1), d, i, j, k; tBox *x; double *M[3]; char s[20];
  alloc_box(BG, b, A(2), A(3), A(4)); x = BG->box[b];
  for(d = 0; d < 3; d++) { x->bbox[2 * d] = A(5 + d); x->bbox[2 * d + 1] = A(8 + d); M[d] = malloc(100 * sizeof(double)); nums(v[13 + d], M[d]); }
  x->Mcoeffs1 = M[0]; x->Mcoeffs2 = M[1]; x->Mcoeffs3 = M[2];
  x->basis1 = bas; x->basis2 = bas; x->basis3 = bas;
  x->TransformType1 = 0; x->TransformType2 = 0; x->TransformType3 = 0;
  for(k = 0; k < 6; k++) enablevar_inbox(x, Ind((char *)CO[k]));
  for(i = 0; i < x->nnodes; i++) { x->v[Ind("X")][i] = i; x->v[Ind("Y")][i] = 2 * i; x->v[Ind("Z")][i] = 3 * i; }
  for(k = 0; k < 5; k++) enablevar_inbox(x, Ind("psi") + k);
  for(k = 1; k <= 6; k++) { sprintf(s, "w%d", k); enablevar_inbox(x, Ind(s)); }
  if(strcmp(v[11], "cart"))
  {
    for(k = 1; k <= 3; k++) x->x_of_X[k] = notcart;
#define P(d,j) x->dX_dx[d][j] = dX##d##j; if(A(12)) x->dx_dX[j][d] = dx##j##d;
    P(1,1) P(1,2) P(1,3) P(2,1) P(2,2) P(2,3) P(3,1) P(3,2) P(3,3)
  }
  if(!strcmp(v[11], "vars")) for(d = 0; d < 3; d++) for(j = 0; j < 3; j++)
  {
    enablevar_inbox(x, Ind("dXdx") + 3 * d + j);
    for(i = 0; i < x->nnodes; i++) x->v[Ind("dXdx") + 3 * d + j][i] = VEC[(i + 2 * (d + 1)) % 7][j];
  }
  res("ok");
}
static void c_bc_fill(int c, char **v) { nums(v[3], BG->box[A(1)]->v[Ind(v[2])]); res("ok"); }
/* bc_face b f ob ofi touch same_fpts sameX sameY sameZ off nd oX oY oZ points */
static void c_bc_face(int c, char **v)
{
  int b = A(1), fi = add_empty_bface(BG->box[b], A(2)), i, m; tBface *f = BG->box[b]->bface[fi]; double x[100]; int *o[3]; char s[20];
  f->ob = A(3); f->ofi = A(4); f->touch = A(5); f->same_fpts = A(6); f->sameX = A(7); f->sameY = A(8); f->sameZ = A(9); f->fpts_off_face = A(10); f->setnormalderiv = A(11);
  o[0] = &f->oXi; o[1] = &f->oYi; o[2] = &f->oZi;
  for(i = 0; i < 3; i++) if(A(12 + i)) { sprintf(s, "w%d", A(12 + i)); *o[i] = Ind(s); }
  if(strcmp(v[15], "%")) m = nums(v[15], x); else m = 0;
  if(!f->fpts) f->fpts = AllocatePointList(BG);
  for(i = 0; i < m; i++) AddToPointList(f->fpts, b, (int)x[i]);
  res("ok");
}
static int same(double *x, double *y, int n) { return !memcmp(x, y, n * sizeof(double)); }
/* bc_do box b | face b f nd: residual in every box; nothing else may change */
static void c_bc_do(int c, char **v)
{
  int d[4], b, k, i; double *keep[4][20]; tBox *box = BG->box[A(2)];
  d[1] = Ind("psix"); d[2] = Ind("psiy"); d[3] = Ind("psiz"); d[0] = 0;
  for(b = 0; b < BG->nboxes; b++) for(k = 0; k < 16; k++)
  {
    static const char *N[] = { "x", "y", "z", "X", "Y", "Z", "psi", "psix", "psiy", "psiz", "w1", "w2", "w3", "w4", "w5", "w6" };
    keep[b][k] = malloc(BG->box[b]->nnodes * sizeof(double)); memcpy(keep[b][k], BG->box[b]->v[Ind((char *)N[k])], BG->box[b]->nnodes * sizeof(double));
  }
  if(!strcmp(v[1], "box")) set_interbox_BCs_for_boxbfaces(box, Ind("fpsi"), Ind("psi"), d);
  else set_interbox_BC_onface(box, Ind("fpsi"), A(3), Ind("psi"), d, A(4));
  for(b = 0; b < BG->nboxes; b++) for(k = 0; k < 16; k++)
  {
    static const char *N[] = { "x", "y", "z", "X", "Y", "Z", "psi", "psix", "psiy", "psiz", "w1", "w2", "w3", "w4", "w5", "w6" };
    if(!same(keep[b][k], BG->box[b]->v[Ind((char *)N[k])], BG->box[b]->nnodes)) res("!%s", N[k]);
    free(keep[b][k]);
  }
  for(b = 0; b < BG->nboxes; b++) for(res(b ? "|" : ""), i = 0; i < BG->box[b]->nnodes; i++) res("%s%.15g", i ? "," : "", BG->box[b]->v[Ind("fpsi")][i]);
}
static void c_bc_dir(int c, char **v)
{
  double n[4][4]; int b = A(1), f = A(2), i = A(3), k; tBox *x = BG->box[b];
  boxface_normal_at_ijk(x, f, i, n[0]); boxface_outwarddir_at_ijk(x, f, i, n[1]);
  boxface_normal_at_XYZ(x, f, i, 2 * i, 3 * i, n[2]); boxface_outwarddir_at_XYZ(x, f, i, 2 * i, 3 * i, n[3]);
  for(k = 0; k < 4; k++) res("%s%.15g,%.15g,%.15g", k ? "|" : "", n[k][1], n[k][2], n[k][3]);
}
/* ---- rules at the outer boundary */
int initialize_BoundaryPointLists(tGrid *grid);
static const char *RN[3][2] = { { "u", "k_r" }, { "up", "kp" }, { "uc", "kc" } };
static tVarList *RL[3];
static int list(char *t, double *x) { return strcmp(t, "%") ? nums(t, x) : 0; }
/* br_grid nb v0_u v0_k far_u far_k frozen chosen */
static void c_br_grid(int c, char **v)
{
  int w, k; char s[40]; static const char *T[] = { "temp1", "temp2", "temp3", "ADMvars_dgxxx", "ADMvars_dgxxy", "ADMvars_dgxxz" };
  bc_vars(); for(w = 0; w < 3; w++) for(k = 0; k < 2; k++) AddVar((char *)RN[w][k], "", "");
  for(k = 0; k < 6; k++) AddVar((char *)T[k], "", "");
  VarNameSetBoundaryInfo("u", A(4), 0, A(2)); VarNameSetBoundaryInfo("k_r", A(5), 0, A(3));
  AddPar("boundary", "", ""); AddPar("boundary_radpower", "0", ""); AddPar("boundary_radconstant", v[6], ""); AddPar("boundary_selectedExcisionVars", v[7], "");
  BG = alloc_grid(A(1), globalnvariables); sprintf(s, "%d", A(1)); AddPar("nboxes", s, "");
  res("ok");
}
/* br_box b n1 n2 n3 coords basis1 basis2 basis3 D1 D2 D3 spots(3 per point) */
static void c_br_box(int c, char **v)
{
  int b = A(1), d, i, k, w; tBox *x; double *M[3], sp[300]; char s[40];
  alloc_box(BG, b, A(2), A(3), A(4)); x = BG->box[b];
  sprintf(s, "box%d_Coordinates", b); AddPar(s, v[5], "");
  for(d = 0; d < 3; d++) { sprintf(s, "box%d_basis%d", b, d + 1); AddPar(s, v[6 + d], ""); M[d] = malloc(100 * sizeof(double)); nums(v[9 + d], M[d]); }
  x->D1 = M[0]; x->D2 = M[1]; x->D3 = M[2]; x->TransformType1 = 0; x->TransformType2 = 0; x->TransformType3 = 0;
  for(k = 0; k < 6; k++) { enablevar_inbox(x, Ind((char *)CO[k])); }
  for(k = 0; k < 3; k++) { enablevar_inbox(x, Ind("temp1") + k); enablevar_inbox(x, Ind("ADMvars_dgxxx") + k); }
  for(w = 0; w < 3; w++) for(k = 0; k < 2; k++) enablevar_inbox(x, Ind((char *)RN[w][k]));
  nums(v[12], sp); for(i = 0; i < x->nnodes; i++) for(d = 0; d < 3; d++) x->v[Ind((char *)CO[d])][i] = sp[3 * i + d];
  res("ok");
}
static void c_br_fill(int c, char **v) { nums(v[4], BG->box[A(3)]->v[Ind((char *)RN[A(1)][A(2)])]); res("ok"); }
static void c_br_on(int c, char **v) { Sets("boundary", v[1]); res("ok"); }
static int up(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
static void c_br_init(int c, char **v)
{
  int L, b, i, m; 
  initialize_BoundaryPointLists(BG);
  tPointList *P[] = { boxBoundaryPointList, radiativeBoundaryPointList, constantBoundaryPointList, selectedBoundaryPointList, ExcisionBoundaryPointList };
  for(L = 0; L < 5; L++) for(b = 0; b < BG->nboxes; b++)
  {
    int a[1000]; m = P[L]->npoints[b]; if(L || b) res("|");
    for(i = 0; i < m; i++) a[i] = P[L]->point[b][i];
    qsort(a, m, sizeof(int), up);
    for(i = 0; i < m; i++) if(i == 0 || a[i] != a[i - 1]) res("%s%d", i ? "," : "", a[i]);
  }
}
static void br_show(int k0, int k1)
{
  int k, b, i;
  for(k = k0; k <= k1; k++) for(b = 0; b < BG->nboxes; b++) for(res(b || k > k0 ? "|" : ""), i = 0; i < BG->box[b]->nnodes; i++)
    res("%s%.15g", i ? "," : "", BG->box[b]->v[Ind((char *)RN[0][k])][i] + 0.0);
}
/* br_apply c time: fields before and after are to be the same for pre and cur */
static void c_br_apply(int c, char **v)
{
  int w, k, b; double *keep[2][2][4];
  for(w = 0; w < 3; w++) { if(RL[w]) vlfree(RL[w]); RL[w] = vlalloc(BG); for(k = 0; k < 2; k++) vlpushone(RL[w], Ind((char *)RN[w][k])); }
  RL[2]->time = A(2);
  for(w = 0; w < 2; w++) for(k = 0; k < 2; k++) for(b = 0; b < BG->nboxes; b++)
  { int n = BG->box[b]->nnodes * sizeof(double); keep[w][k][b] = malloc(n); memcpy(keep[w][k][b], BG->box[b]->v[Ind((char *)RN[w + 1][k])], n); }
  set_boundary(RL[0], RL[1], A(1), RL[2]);
  for(w = 0; w < 2; w++) for(k = 0; k < 2; k++) for(b = 0; b < BG->nboxes; b++)
  { if(!same(keep[w][k][b], BG->box[b]->v[Ind((char *)RN[w + 1][k])], BG->box[b]->nnodes)) res("!%s", RN[w + 1][k]); free(keep[w][k][b]); }
  br_show(0, 1);
}
/* br_pl value|left|right var dir number points points ... */
static void c_br_pl(int c, char **v)
{
  tPointList *P = AllocatePointList(BG); int b, i, m; double x[100]; int ui = Ind((char *)RN[0][A(2)]);
  for(b = 0; b < BG->nboxes; b++) { m = list(v[5 + b], x); for(i = 0; i < m; i++) AddToPointList(P, b, (int)x[i]); }
  if(v[1][0] == 'v') set_boundary_value(P, ui, A(4));
  else if(v[1][0] == 'l') set_boundary_normalderiv_leftBound(P, A(3), ui, A(4));
  else set_boundary_normalderiv_rightBound(P, A(3), ui, A(4));
  br_show(A(2), A(2)); FreePointList(P);
}
void drv_bc_init(void)
{
  drv_register("br_grid", c_br_grid); drv_register("br_box", c_br_box); drv_register("br_fill", c_br_fill); drv_register("br_on", c_br_on); drv_register("br_init", c_br_init); drv_register("br_apply", c_br_apply); drv_register("br_pl", c_br_pl);
  drv_register("bc_grid", c_bc_grid); drv_register("bc_box", c_bc_box); drv_register("bc_fill", c_bc_fill); drv_register("bc_face", c_bc_face); drv_register("bc_do", c_bc_do); drv_register("bc_dir", c_bc_dir);
}
