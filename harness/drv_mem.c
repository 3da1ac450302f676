/* drv_mem.c: variable registry, variable lists, storage, grids, point and integer lists, boundary faces */
#include "drv.h"
#include "MemoryMan.h"
extern int sgrid_restarts, nenabled, storage_verbose;
void tensorindexlist(char *t, int *nilist, char **ilist, int *sym);
void enablesamevars(tGrid *grid, tGrid *newgrid);

#define A(i) atoi(v[i])
/* comma separated integers, "" empty */
int ints(char *s, int *a)
{
  int n = 0; char *e;
  if(!s) return 0;
  while(*s) { a[n++] = strtol(s, &e, 10); s = e; if(*s == ',') s++; }
  return n;
}
void res_ints(int *a, int n) { int i; if(!n) res("%%"); for(i = 0; i < n; i++) res(i ? ",%d" : "%d", a[i]); }

/* ---------------- registry */
static void c_addvar(int c, char **v) { AddVar(v[1], v[2], v[3]); res("ok"); }
static void c_addconst(int c, char **v) { AddConstantVar(v[1], v[2], v[3]); res("ok"); }
static void c_again(int c, char **v) { sgrid_restarts = 1; res("ok"); }
static void c_setbound(int c, char **v) { VarNameSetBoundaryInfo(v[1], num(v[2]), num(v[3]), num(v[4])); res("ok"); }
static void c_setconst(int c, char **v) { VarNameSetConstantFlag(v[1]); res("ok"); }
static void c_indlax(int c, char **v) { res("%d", IndLax(v[1])); }
static void c_ind(int c, char **v) { res("%d", Ind(v[1])); }
static void c_vstart(int c, char **v) { Set_vdb_iStart_AtPar(v[1]); res("ok"); }
static void c_varname(int c, char **v) { res_str(VarName(A(1))); }
static void c_ncomp(int c, char **v) { res("%d", VarNComponents(A(1))); }
static void c_comp0(int c, char **v) { res_str(VarNameComponent0(v[1])); }
static void c_dumpvars(int c, char **v)
{
  int i, k;
  res("%d", globalnvariables);
  for(i = 0; i < globalnvariables; i++)
  {
    res(" "); res_str(VarName(i)); res(":"); res_str(VarTensorIndices(i));
    res(":%d:%d:%d:", VarComponent(i), VarNComponents(i), VarConstantFlag(i));
    res_dbl(VarFarLimit(i)); res(":"); res_dbl(VarFallOff(i)); res(":"); res_dbl(VarPropSpeed(i));
    if(strpbrk(VarTensorIndices(i), "qrstQRST")) res(":0:0:0");
    else for(k = 0; k < 3; k++) res(":%d", VarSymmetry(i, k));
    if(Ind(VarName(i)) != i) res(":index!");
  }
}
static void c_tensor(int c, char **v)   /* components of an index string */
{
  char *il[NINDEXLIST]; int sym[3 * NINDEXLIST], n, i;
  tensorindexlist(v[1], &n, il, sym);
  res("%d", n);
  for(i = 0; i < n; i++) { res(" "); res_str(il[i]); res(":%d:%d:%d", sym[3*i], sym[3*i+1], sym[3*i+2]); }
}
tGrid *G[8];
static tVarList *L[16];
static void c_adddup(int c, char **v)
{
  int a[1000], n = ints(v[2], a), i; tVarList *u = vlalloc(G[1]), *w;
  for(i = 0; i < n; i++) vlpushone(u, a[i]);
  w = AddDuplicate(u, v[1]);
  res_ints(w->index, w->n); vlfree(u); vlfree(w);
}


/* ---------------- grids: mkgrid k n1xn2xn3,n1xn2xn3,...  (no coordinates, no spectral setup) */
static void needpar(char *n, char *val) { if(!GetsLax(n)) AddPar(n, val, ""); }
static void c_mkgrid(int c, char **v)
{
  int k = A(1), nb = 0, n[100][3]; char *s = v[2], *p;
  needpar("storage_verbose", "no");
  for(p = strtok(s, ","); p; p = strtok(NULL, ",")) { sscanf(p, "%dx%dx%d", n[nb], n[nb]+1, n[nb]+2); nb++; }
  G[k] = alloc_grid(nb, globalnvariables);
  { int b; for(b = 0; b < nb; b++) alloc_box(G[k], b, n[b][0], n[b][1], n[b][2]); }
  res("ok");
}
static void c_freegrid(int c, char **v) { free_grid(G[A(1)]); G[A(1)] = NULL; res("ok"); }
/* setv k b var x1,x2,... : set all points of a variable in a box */
static void c_setv(int c, char **v)
{
  int k = A(1), b = A(2), i = A(3), p = 0; char *s = v[4], *e; double *d = G[k]->box[b]->v[i];
  while(*s) { d[p++] = strtod(s, &e); s = e; if(*s == ',') s++; }
  res("ok");
}
static void c_setpt(int c, char **v) { G[A(1)]->box[A(2)]->v[A(3)][A(4)] = num(v[5]); res("ok"); }
/* all data of grid k: box;var,var,..  '-' where not enabled */
static void c_data(int c, char **v)
{
  tGrid *g = G[A(1)]; int b, i, p;
  for(b = 0; b < g->nboxes; b++)
  {
    tBox *x = g->box[b];
    if(b) res(" ");
    for(i = 0; i < g->nvariables; i++)
    {
      res(i ? ";" : "");
      if(!x->v[i]) { res("-"); continue; }
      for(p = 0; p < x->nnodes; p++) { if(p) res(","); res_dbl(x->v[i][p]); }
    }
  }
}
static void c_encomp(int c, char **v) { enablevarcomp(G[A(1)], A(2)); res("ok"); }
/* ---------------- variable lists */
static void c_vlalloc(int c, char **v) { L[A(1)] = vlalloc(G[1]); res("ok"); }
static void c_vlfree(int c, char **v) { vlfree(L[A(1)]); L[A(1)] = NULL; res("ok"); }
static void c_vlmake(int c, char **v)    /* vlmake k i,i,.. time */
{ int a[1000], n = ints(v[2], a), i; L[A(1)] = vlalloc(G[1]); for(i = 0; i < n; i++) vlpushone(L[A(1)], a[i]); L[A(1)]->time = num(v[3]); res("ok"); }
static void c_vlpushone(int c, char **v) { vlpushone(L[A(1)], A(2)); res("ok"); }
static void c_vlpush(int c, char **v) { vlpush(L[A(1)], A(2)); res("ok"); }
static void c_vlpushvl(int c, char **v) { vlpushvl(L[A(1)], L[A(2)]); res("ok"); }
static void c_vldropone(int c, char **v) { vldropone(L[A(1)], A(2)); res("ok"); }
static void c_vldrop(int c, char **v) { vldrop(L[A(1)], A(2)); res("ok"); }
static void c_vldropn(int c, char **v) { vldropn(L[A(1)], A(2)); res("ok"); }
static void c_vlduplicate(int c, char **v) { L[A(2)] = vlduplicate(L[A(1)]); res("ok"); }
static void c_vlsetconstant(int c, char **v) { vlsetconstant(L[A(1)], num(v[2])); res("ok"); }
static void c_vltime(int c, char **v) { L[A(1)]->time = num(v[2]); res("ok"); }
static void c_vlcopy(int c, char **v) { vlcopy(L[A(1)], L[A(2)]); res("ok"); }
static void c_vlcopygrid(int c, char **v) { vlcopygrid(G[1], L[A(1)], L[A(2)]); res("ok"); }
static void c_vlswap(int c, char **v) { vlswap(L[A(1)], L[A(2)]); res("ok"); }
static void c_vlaverage(int c, char **v) { vlaverage(L[A(1)], L[A(2)], L[A(3)]); res("ok"); }
static void c_vlsubtract(int c, char **v) { vlsubtract(L[A(1)], L[A(2)], L[A(3)]); res("ok"); }
static void c_vladd(int c, char **v) { vladd(L[A(1)], num(v[2]), L[A(3)], num(v[4]), L[A(5)]); res("ok"); }
static void c_vladdto(int c, char **v) { vladdto(L[A(1)], num(v[2]), L[A(3)]); res("ok"); }
static void c_varcopy(int c, char **v) { varcopy(G[1], A(1), A(2)); res("ok"); }
static void c_varswap(int c, char **v) { varswap(G[1], A(1), A(2)); res("ok"); }
static void c_varadd(int c, char **v) { varadd(G[1], A(1), num(v[2]), A(3), num(v[4]), A(5)); res("ok"); }
static void c_dumplists(int c, char **v)  /* time:indices for 1..n */
{
  int k, n = A(1);
  for(k = 1; k <= n; k++)
  {
    if(k > 1) res(" ");
    if(!L[k]) { res("~"); continue; }
    res_dbl(L[k]->time); res(":"); res_ints(L[k]->index, L[k]->n);
  }
}
static void c_inactive(int c, char **v) /* inactive k b,b,.. */
{ int a[100], n = ints(v[2], a), i; for(i = 0; i < n; i++) G[A(1)]->box[a[i]]->inactive = 1; G[A(1)]->ninactive = n; res("ok"); }

void drv_mem_init(void)
{
  drv_register("addvar", c_addvar); drv_register("addconst", c_addconst); drv_register("again", c_again);
  drv_register("setbound", c_setbound); drv_register("setconst", c_setconst); drv_register("indlax", c_indlax);
  drv_register("ind", c_ind); drv_register("vstart", c_vstart); drv_register("varname", c_varname);
  drv_register("ncomp", c_ncomp); drv_register("comp0", c_comp0); drv_register("dumpvars", c_dumpvars);
  drv_register("tensor", c_tensor); drv_register("adddup", c_adddup);
  drv_register("encomp", c_encomp);
  drv_register("mkgrid", c_mkgrid);
  drv_register("freegrid", c_freegrid);
  drv_register("setv", c_setv);
  drv_register("setpt", c_setpt);
  drv_register("data", c_data);
  drv_register("vlalloc", c_vlalloc);
  drv_register("vlfree", c_vlfree);
  drv_register("vlmake", c_vlmake);
  drv_register("vlpushone", c_vlpushone);
  drv_register("vlpush", c_vlpush);
  drv_register("vlpushvl", c_vlpushvl);
  drv_register("vldropone", c_vldropone);
  drv_register("vldrop", c_vldrop);
  drv_register("vldropn", c_vldropn);
  drv_register("vlduplicate", c_vlduplicate);
  drv_register("vlsetconstant", c_vlsetconstant);
  drv_register("vltime", c_vltime);
  drv_register("vlcopy", c_vlcopy);
  drv_register("vlcopygrid", c_vlcopygrid);
  drv_register("vlswap", c_vlswap);
  drv_register("vlaverage", c_vlaverage);
  drv_register("vlsubtract", c_vlsubtract);
  drv_register("vladd", c_vladd);
  drv_register("vladdto", c_vladdto);
  drv_register("varcopy", c_varcopy);
  drv_register("varswap", c_varswap);
  drv_register("varadd", c_varadd);
  drv_register("dumplists", c_dumplists);
  drv_register("inactive", c_inactive);
}
