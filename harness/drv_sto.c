/* drv_sto.c: storage of variables, box settings, copies of grids */
#include "drv.h"
#include "MemoryMan.h"
extern int nenabled;
void enablesamevars(tGrid *grid, tGrid *newgrid);
int IndexOf_ith_ActiveBox(tGrid *grid, int i);
extern tGrid *G[];
#define A(i) atoi(v[i])

static void c_addvarto(int c, char **v)  /* k idx ncomp */
{
  char n[100]; int nc = A(3);
  snprintf(n, 99, "V%d", A(2));
  AddVarToGrid(G[A(1)], n, nc == 1 ? "" : nc == 2 ? "q" : nc == 3 ? "i" : "(ij)", "d");
  res("ok");
}
static void c_envar(int c, char **v) { enablevar(G[A(1)], A(2)); res("ok"); }
static void c_disvar(int c, char **v) { disablevar(G[A(1)], A(2)); res("ok"); }
static void c_discomp(int c, char **v) { disablevarcomp(G[A(1)], A(2)); res("ok"); }
static void c_envarbox(int c, char **v) { enablevar_inbox(G[A(1)]->box[A(2)], A(3)); res("ok"); }
static void c_disvarbox(int c, char **v) { disablevar_inbox(G[A(1)]->box[A(2)], A(3)); res("ok"); }
static tVarList *list(tGrid *g, char *s)
{
  int a[1000], n = ints(s, a), i; tVarList *u = vlalloc(g);
  for(i = 0; i < n; i++) vlpushone(u, a[i]);
  return u;
}
static void c_enlist(int c, char **v) { tVarList *u = list(G[A(1)], v[2]); enablevarlist(u); vlfree(u); res("ok"); }
static void c_dislist(int c, char **v) { tVarList *u = list(G[A(1)], v[2]); disablevarlist(u); vlfree(u); res("ok"); }
static void c_dupenable(int c, char **v)  /* k i ncomp nv */
{
  char post[40]; int j; tVarList *u = vlalloc(G[A(1)]), *w;
  for(j = 0; j < A(3); j++) vlpushone(u, A(2) + j);
  snprintf(post, 39, "_d%d", A(4));
  w = AddDuplicateEnable(u, post);
  res_ints(w->index, w->n); vlfree(u); vlfree(w);
}
/* ---- settings of a box: one number written to, or expected in, every setting */
static long FX(double x) { return 0x1000 + (long)x * 16; }
static int set_ok;
static const char *set_bad;
static double set_x;
static int set_write;
#define DBL(f) do { if(set_write) (f) = set_x; else if((f) != set_x) set_bad = #f; } while(0)
#define INT(f) do { if(set_write) (f) = (int)set_x; else if((f) != (int)set_x) set_bad = #f; } while(0)
#define PTR(f) do { void *q = set_x == 0 ? NULL : (void *)FX(set_x); if(set_write) *(void **)&(f) = q; else if(*(void **)&(f) != q) set_bad = #f; } while(0)
#define MAT(f, n) do { int q; for(q = 0; q < (n)*(n); q++) { if(set_write) (f)[q] = set_x + (set_x != 0)*q; else if((f)[q] != set_x + (set_x != 0)*q) set_bad = #f; } } while(0)
static void settings(tBox *x)
{
  int i, j, k; int n1 = x->n1, n2 = x->n2, n3 = x->n3;
  for(i = 0; i < 6; i++) { DBL(x->bbox[i]); INT(x->ibbox[i]); }
  for(i = 0; i < x->nnodes; i++) { INT(x->node[i].type); }
  for(i = 0; i < 4; i++)
  {
    PTR(x->x_of_X[i]); PTR(x->Sing_d_dx[i]);
    for(j = 0; j < 4; j++)
    {
      PTR(x->dX_dx[i][j]); PTR(x->dx_dX[i][j]);
      for(k = 0; k < 4; k++) PTR(x->ddX_dxdx[i][j][k]);
    }
    INT(x->periodic[i]);
  }
  PTR(x->XYZ_Of_xyz); PTR(x->isSing); PTR(x->basis1); PTR(x->basis2); PTR(x->basis3);
  PTR(x->get_coeffs1); PTR(x->get_coeffs2); PTR(x->get_coeffs3);
  PTR(x->coeffs_of_deriv1); PTR(x->coeffs_of_deriv2); PTR(x->coeffs_of_deriv3);
  PTR(x->coeffs_of_2ndderiv1); PTR(x->coeffs_of_2ndderiv2); PTR(x->coeffs_of_2ndderiv3);
  PTR(x->coeffs_of_int1); PTR(x->coeffs_of_int2); PTR(x->coeffs_of_int3);
  PTR(x->eval_onPoints1); PTR(x->eval_onPoints2); PTR(x->eval_onPoints3);
  PTR(x->filter_coeffs1); PTR(x->filter_coeffs2); PTR(x->filter_coeffs3);
  INT(x->TransformType1); INT(x->TransformType2); INT(x->TransformType3);
  for(i = 0; i < NATTRIBS; i++) INT(x->Attrib[i]);
  MAT(x->D1, n1); MAT(x->DD1, n1); MAT(x->F1, n1); MAT(x->Mcoeffs1, n1); MAT(x->Meval1, n1); MAT(x->Int1, n1);
  MAT(x->D2, n2); MAT(x->DD2, n2); MAT(x->F2, n2); MAT(x->Mcoeffs2, n2); MAT(x->Meval2, n2); MAT(x->Int2, n2);
  MAT(x->D3, n3); MAT(x->DD3, n3); MAT(x->F3, n3); MAT(x->Mcoeffs3, n3); MAT(x->Meval3, n3); MAT(x->Int3, n3);
  for(i = 0; i < 6; i++) { INT(x->CI->iFS[i]); INT(x->CI->iSurf[i]); DBL(x->CI->s[i]); PTR(x->CI->FSurf[i]); for(j = 0; j < 4; j++) { INT(x->CI->idSurfdX[i][j]); PTR(x->CI->dFSurfdX[i][j]); } }
  for(i = 0; i < 4; i++) DBL(x->CI->xc[i]);
  INT(x->CI->dom); INT(x->CI->type); INT(x->CI->useF);
}
static void c_setset(int c, char **v) { set_write = 1; set_x = num(v[3]); settings(G[A(1)]->box[A(2)]); res("ok"); }
static void c_setiter(int c, char **v) { tGrid *g = G[A(1)]; g->iteration = A(2); g->time = A(2) * 0.5; g->dt = A(2) * 0.25; res("ok"); }
static intList *il(char *s) { int a[1000], n = ints(s, a), i; intList *l = alloc_intList(); for(i = 0; i < n; i++) push_intList(l, a[i]); return l; }
static void c_deact(int c, char **v) { intList *l = il(v[2]); deactivate_boxes(G[A(1)], l); free_intList(l); res("ok"); }
static void c_act(int c, char **v) { intList *l = il(v[2]); activate_boxes(G[A(1)], l); free_intList(l); res("ok"); }
static void c_deactall(int c, char **v) { deactivate_allboxes(G[A(1)]); res("ok"); }
static void c_actall(int c, char **v) { activate_allboxes(G[A(1)]); res("ok"); }
static void c_ithactive(int c, char **v) { res("%d", IndexOf_ith_ActiveBox(G[A(1)], A(2))); }
static void c_copygrid(int c, char **v) { copy_grid(G[A(1)], G[A(2)], 0); res("ok"); }
static void c_copywithout(int c, char **v) { copy_grid_withoutvars(G[A(1)], G[A(2)], 0); res("ok"); }
static void c_copygridvar(int c, char **v) { copy_gridvar(A(1), G[A(2)], G[A(3)]); res("ok"); }
static void c_enablesame(int c, char **v) { enablesamevars(G[A(1)], G[A(2)]); res("ok"); }
/* dumpsto n x,x,...  : grids 1..n; the numbers are the expected settings of all boxes in order */
static void c_dumpsto(int c, char **v)
{
  int k, b, i, p, n = A(1), a[100], na = ints(v[2], a), q = 0;
  res("%d", nenabled);
  for(k = 1; k <= n; k++)
  {
    tGrid *g = G[k];
    if(!g) { res(" | ~"); continue; }
    res(" | %d %d %d %d ", g->nvariables, g->iteration, g->ninactive, g->time == g->iteration * 0.5 && g->dt == g->iteration * 0.25);
    for(b = 0; b < g->nboxes; b++)
    {
      tBox *x = g->box[b];
      set_write = 0; set_bad = NULL; set_x = q < na ? a[q] : 0; q++;
      settings(x);
      if(x->grid != g || x->b != b) set_bad = "box->grid/b";
      if(set_bad) res("%s!=%g ", set_bad, set_x);
      res("%d:", x->inactive);
      for(i = 0; i < g->nvariables; i++)
      {
        if(i) res(";");
        if(!x->v[i]) { res("-"); continue; }
        for(p = 0; p < x->nnodes; p++) { if(p) res(","); res_dbl(x->v[i][p]); }
      }
      if(b < g->nboxes - 1) res(" ");
    }
  }
}
void drv_sto_init(void)
{
  drv_register("addvarto", c_addvarto); drv_register("envar", c_envar); drv_register("disvar", c_disvar);
  drv_register("discomp", c_discomp); drv_register("envarbox", c_envarbox); drv_register("disvarbox", c_disvarbox);
  drv_register("enlist", c_enlist); drv_register("dislist", c_dislist); drv_register("dupenable", c_dupenable);
  drv_register("setset", c_setset); drv_register("setiter", c_setiter); drv_register("deact", c_deact); drv_register("act", c_act);
  drv_register("deactall", c_deactall); drv_register("actall", c_actall); drv_register("ithactive", c_ithactive);
  drv_register("copygrid", c_copygrid); drv_register("copywithout", c_copywithout); drv_register("copygridvar", c_copygridvar);
  drv_register("enablesame", c_enablesame); drv_register("dumpsto", c_dumpsto);
}
