/* drv_la.c: LU decomposition, root finders and minimisers, sparse matrices */
#include "drv.h"
#include "MemoryMan.h"
#include <omp.h>
#include <setjmp.h>
#include <ctype.h>
#include <malloc.h>
#ifdef SUITESPARSEQR
#include "cholmod.h"
#endif
int lu_decomp(int n, double A[][n], int *p_idx, int *parity);
void lu_solve(int n, double A[][n], int *p_idx, double b[]);
double lu_det(int n, double A[][n], int parity);
void cap_begin(void);
char *cap_end(void);
#define A(i) atoi(v[i])
static int nums(char *s, double *a)
{
  int n = 0; char *e;
  while(*s && *s != '%') { a[n++] = strtod(s, &e); if(e == s) break; s = e; if(*s == ',') s++; }
  return n;
}
static void res_nums(double *a, int n) { int i; if(!n) res("%%"); for(i = 0; i < n; i++) { if(i) res(","); res_dbl(a[i]); } }

/* lu how n a,... b,... : how 0: arrays from 0, 1: arrays from 1 */
static void c_lu(int c, char **v)
{
  int how = A(1), n = A(2), p[64], par = 77, ret, i; double a[4096], b[64], d = 77;
  nums(v[3], a); nums(v[4], b);
  if(how == 0)
  {
    double (*M)[n] = malloc(sizeof(double) * n * n); memcpy(M, a, sizeof(double) * n * n);
    ret = lu_decomp(n, M, p, &par); res("%d", ret);
    if(ret == 0)
    { res(" "); res_ints(p, n); res(" %d ", par); res_nums(&M[0][0], n * n); res(" "); res_dbl(lu_det(n, M, par)); lu_solve(n, M, p, b); res(" "); res_nums(b, n); }
    else { res(" "); res_nums(&M[0][0], n * n); }
    free(M);
  }
  else
  {
    double **m = matrix(1, n, 1, n), *r = vector(1, n); int *ix = ivector(1, n);
    for(i = 0; i < n * n; i++) m[1 + i / n][1 + i % n] = a[i];
    for(i = 0; i < n; i++) r[i + 1] = b[i];
    ret = ludcmpSing(m, n, ix, &d); res("%d", ret);
    if(ret == 0)
    {
      lubksb(m, n, ix, r);
      res(" "); res_ints(ix + 1, n); res(" %d ", (int)d);
      for(i = 0; i < n * n; i++) { if(i) res(","); res_dbl(m[1 + i / n][1 + i % n]); }
      for(i = 1; i <= n; i++) d *= m[i][i];
      res(" "); res_dbl(d); res(" "); res_nums(r + 1, n);
    }
    else { res(" "); res_nums(&m[1][1], n * n); }
    free_matrix(m, 1, n, 1, n); free_vector(r, 1, n); free_ivector(ix, 1, n);
  }
}

/* ---------------- functions of one variable whose values are given call by call */
#define MAXEV 20000
static double EX[MAXEV], EF[MAXEV], ED[MAXEV], ans[4096], dans[4096];
static int nev, nans, order[MAXEV], nord;
static char form[32]; static double fr, fs;
static void formula(double x, double *f, double *d)
{
  double y = x - fr; *d = 0;
  if(!strcmp(form, "lin")) { *f = y; *d = 1; }
  else if(!strcmp(form, "cube")) { *f = y * y * y; *d = 3 * y * y; }
  else if(!strcmp(form, "exp")) { *f = exp(y) - 1; *d = exp(y); }
  else if(!strcmp(form, "steep")) { *f = tanh(1e4 * y); *d = 1e4 / cosh(1e4 * y) / cosh(1e4 * y); }
  else if(!strcmp(form, "flat")) { *f = pow(y, 9); *d = 9 * pow(y, 8); }
  else if(!strcmp(form, "osc")) { *f = sin(10 * y); *d = 10 * cos(10 * y); }
  else if(!strcmp(form, "step")) *f = y < 0 ? -1 : 1;
  else if(!strcmp(form, "quart")) { *f = y * y * y * y; *d = 4 * y * y * y; }
  else if(!strcmp(form, "abs")) { *f = fabs(y); *d = y < 0 ? -1 : 1; }
  else if(!strcmp(form, "bowl")) { *f = y * y - 0.01; *d = 2 * y; }
  else { *f = y * exp(y); *d = (1 + y) * exp(y); }
  *f *= fs; *d *= fs;
}
static int at(double x)
{
  int k;
  for(k = 0; k < nev; k++) if(memcmp(&EX[k], &x, sizeof(x)) == 0 || EX[k] == x) break;
  if(k == nev)
  {
    if(nev >= MAXEV - 1) { res("too many evaluations"); return 0; }
    EX[nev] = x;
    if(form[0]) formula(x, &EF[nev], &ED[nev]);
    else { EF[nev] = ans[nev < nans ? nev : nev % nans]; ED[nev] = dans[nev < nans ? nev : nev % nans]; }
    nev++;
  }
  if(nord < MAXEV) order[nord++] = k;
  return k;
}
static double fun(double x, void *p) { if(p != (void *)ans) res("!parameter "); return EF[at(x)]; }
static void fdf(double x, void *p, double *f, double *df) { int k = at(x); if(p != (void *)ans) res("!parameter "); *f = EF[k]; *df = ED[k]; }
int zbrac_P(double (*func)(double, void *), double *x1, double *x2, void *par);
int zbrent_itsP(double *x0, double (*func)(double, void *), double x1, double x2, void *par, int ITMAX, double tol);
int minbrent_brak(double (*f)(double, void *), void *, double, double, double, int, double, double *, double *, int);
int min_brak(double (*func)(double, void *), void *, double *, double *, double *, double *, double *, double *, int);
int rt_brak(double (*func)(double, void *), void *, double *, double *, int);
int rtbrent_brak(double *, double (*)(double, void *), double, double, void *, int, double, int);
int newton1d_brak(double *, void (*)(double, void *, double *, double *), double, double, void *, int, double, int);
int rtbisect(double *, double (*)(double, void *), double, double, void *, int, double, int);
/* root SOLVER x0 x1 x2 maxits acc f/df,f/df,... -> return value, results, evaluations */
static void c_root(int c, char **v)
{
  double x0 = num(v[2]), x1 = num(v[3]), x2 = num(v[4]), acc = num(v[6]), r[6]; int m = A(5), ret, n = 0, k; char *s, *t;
  nev = nord = nans = 0; form[0] = 0;
  if(v[7][0] == '@') { sscanf(v[7], "@%31[^:]:%lf:%lf", form, &fr, &fs); v[7][0] = 0; }
  for(t = strtok_r(v[7], ",", &s); t; t = strtok_r(NULL, ",", &s)) { char *d = strchr(t, '/'); if(d) *d++ = 0; ans[nans] = num(t); dans[nans++] = d ? num(d) : 1; }
  cap_begin();
  if(!strcmp(v[1], "newton")) { ret = newton1d_brak(&x0, fdf, x1, x2, ans, m, acc, 0); r[n++] = x0; }
  else if(!strcmp(v[1], "bisect")) { ret = rtbisect(&x0, fun, x1, x2, ans, m, acc, 0); r[n++] = x0; }
  else if(!strcmp(v[1], "brent")) { ret = rtbrent_brak(&x0, fun, x1, x2, ans, m, acc, 0); r[n++] = x0; }
  else if(!strcmp(v[1], "zbrent")) { ret = zbrent_itsP(&x0, fun, x1, x2, ans, m, acc); r[n++] = x0; }
  else if(!strcmp(v[1], "brak")) { ret = rt_brak(fun, ans, &x1, &x2, m); r[n++] = x1; r[n++] = x2; }
  else if(!strcmp(v[1], "zbrac")) { ret = zbrac_P(fun, &x1, &x2, ans); r[n++] = x1; r[n++] = x2; }
  else if(!strcmp(v[1], "min")) { ret = minbrent_brak(fun, ans, x1, x0, x2, m, acc, &r[0], &r[1], 0); n = 2; }
  else { r[0] = x1; r[1] = x2; ret = min_brak(fun, ans, &r[0], &r[1], &r[2], &r[3], &r[4], &r[5], m); n = 6; }
  cap_end();
  res("%d ", ret); res_nums(r, n); res(" ");
  for(k = 0; k < nord; k++) { if(k) res(","); res_dbl(EX[order[k]]); res(":"); res_dbl(EF[order[k]]); }
}
/* ---------------- sparse vectors and matrices */
int umfpack_di_solve_forSortedVars_fromAlines(tSparseVector **Aline, tVarList *vlx, tVarList *vlb, double dropbelow, int pr);
static void res_sv(tSparseVector *V)
{ int k; if(!V->entries) res("%%"); for(k = 0; k < V->entries; k++) { if(k) res(","); res("%d:", V->pos[k]); res_dbl(V->val[k]); } }
static void res_packed(int n, const LONGINT *Ap, const LONGINT *Ai, const double *Ax)
{ int j; LONGINT k; for(j = 0; j <= n; j++) { if(j) res(","); res("%ld", Ap[j]); } res("/"); for(k = 0; k < Ap[n]; k++) { if(k) res(","); res("%ld:", Ai[k]); res_dbl(Ax[k]); } if(!Ap[n]) res("%%"); }
static void widen(int n, const int *Ap, const int *Ai, LONGINT *Lp, LONGINT *Li)
{ int k; for(k = 0; k <= n; k++) Lp[k] = Ap[k]; for(k = 0; k < Ap[n]; k++) Li[k] = Ai[k]; }
/* spvec n rows y : rows r;r;.. of p:v,p:v  -> rows get times left transposed market market-columns di/dl conversions */
static void c_spvec(int c, char **v)
{
  int n = A(1), r = 0, k, p, d, how; double y[64], f[64]; char *s, *t, *s2, *row, line[300]; FILE *fp;
  tSparseVector **L = AllocateSparseVectorArray(n), **C = AllocateSparseVectorArray(n);
  int *Ap, *Ai; LONGINT *Lp, *Li, Wp[64], Wi[4096]; double *Ax;
  nums(v[3], y);
  for(row = strtok_r(v[2], ";", &s); row; row = strtok_r(NULL, ";", &s), r++)
    for(t = strtok_r(row, ",", &s2); t; t = strtok_r(NULL, ",", &s2))
    {
      double val; if(sscanf(t, "%d:%lf", &p, &val) != 2) continue;
      if(p % 2) AddToSparseVector(L[r], p, val); else AddToSparseVector_critical(L[r], p, val);
      AddToSparseVector(C[p], r, val);
    }
  for(r = 0; r < n; r++) { if(r) res(";"); res_sv(L[r]); }
  res(" ");
  for(r = 0; r < n; r++) for(p = 0; p < n; p++) { if(r + p) res(","); res_dbl(GetSparseVectorComponent(L[r], p)); }
  for(how = 0; how < 4; how++)
  {
    for(k = 0; k < n; k++) f[k] = 55;
    if(how == 0) SparseMatrixLines_times_vector(L, n, y, f);
    else if(how == 1) vector_times_SparseMatrixLines(y, L, n, f);
    else if(how == 2) SparseMatrixLinesTranspose_times_vector(L, n, y, f);
    else SparseMatrixLines_times_vector(C, n, y, f);
    res(" "); res_nums(f, n);
  }
  for(how = 0; how < 2; how++)
  {
    remove("spvec.mtx"); res(" %d", write_SparseVectorArray_inMatrixMarketFormat("spvec.mtx", how ? C : L, n, how));
    fp = fopen("spvec.mtx", "r"); k = 0;
    while(fp && fgets(line, 300, fp)) { line[strcspn(line, "\n")] = 0; if(k++ == 0 || line[0] != '%') { char *q; res("/"); for(q = line; *q; q++) if(*q == ' ') *q = '_'; res("%s", line[0] == '%' ? line + 2 : line); } }
    if(fp) fclose(fp); remove("spvec.mtx");
  }
  for(d = 0; d < 3; d++)
  {
    allocate_umfpack_di_matrix(&Ap, &Ai, &Ax, n, n * n + 1);
    res(" %d@", set_umfpack_di_matrix_from_lines(Ap, Ai, Ax, L, n, d, 0)); widen(n, Ap, Ai, Wp, Wi); res_packed(n, Wp, Wi, Ax);
    res(" %d@", set_umfpack_di_matrix_from_columns(Ap, Ai, Ax, C, n, d, 0)); widen(n, Ap, Ai, Wp, Wi); res_packed(n, Wp, Wi, Ax);
    free_umfpack_di_matrix(Ap, Ai, Ax);
    allocate_umfpack_dl_matrix(&Lp, &Li, &Ax, n, n * n + 1);
    res(" %ld@", set_umfpack_dl_matrix_from_lines(Lp, Li, Ax, L, n, d, 0)); res_packed(n, Lp, Li, Ax);
    res(" %ld@", set_umfpack_dl_matrix_from_columns(Lp, Li, Ax, C, n, d, 0)); res_packed(n, Lp, Li, Ax);
    free_umfpack_dl_matrix(Lp, Li, Ax);
  }
  FreeSparseVectorArray(L, n); FreeSparseVectorArray(C, n);
}
#define MAXU 512
static struct { int rb, rp, rv, cb, cp, cv; double k; } Op[4096];
static int nOp, spx[4], spf[4], spc, spd, spby, insub[8], subbad;
static void setpar(char *n, char *val) { if(!GetsLax(n)) AddPar(n, val, ""); Sets(n, val); }
static int spvar(char *n) { if(IndLax(n) < 0) AddVar(n, "", ""); return Ind(n); }
static tGrid *spgrid(char *shape)
{
  int n[16][3], nb = 0, b, k; char *p, *s, t[64], w[64]; tGrid *g;
  setpar("storage_verbose", "no"); setpar("dt", "0.25"); setpar("LinAlg_setABStozero_below", "0");
  for(k = 0; k < 4; k++) { sprintf(t, "sgx%d", k); spx[k] = spvar(t); sprintf(t, "sgf%d", k); spf[k] = spvar(t); }
  spc = spvar("sgc"); spd = spvar("sgd"); spby = spvar("sgby");
  for(p = strtok_r(shape, ",", &s); p; p = strtok_r(NULL, ",", &s)) { sscanf(p, "%dx%dx%d", n[nb], n[nb]+1, n[nb]+2); nb++; }
  sprintf(w, "%d", nb); setpar("nboxes", w);
  for(b = 0; b < nb; b++) for(k = 0; k < 3; k++) { sprintf(t, "box%d_n%d", b, k + 1); sprintf(w, "%d", n[b][k]); setpar(t, w); }
  g = alloc_grid(nb, globalnvariables);
  for(b = 0; b < nb; b++) alloc_box(g, b, n[b][0], n[b][1], n[b][2]);
  for(k = 0; k < 4; k++) { enablevar(g, spx[k]); enablevar(g, spf[k]); }
  enablevar(g, spc); enablevar(g, spd); enablevar(g, spby);
  for(b = 0; b < nb; b++) forallpoints(g->box[b], k) g->box[b]->v[spby][k] = 100 * b + k;
  return g;
}
static void spFx(tVarList *vlF, tVarList *vlx, tVarList *c1, tVarList *c2)
{
  tGrid *g = vlF->grid; int k, b, i;
  if(insub[6])
  {
    tVarBoxSubboxIndices *q = vlx->vlPars;
    if(!q || q->vli != insub[0] || q->bi != insub[1] || q->sbi != insub[2] || q->sbj != insub[3] || q->sbk != insub[4] || q->nsb1 != insub[5] || q->nsb2 != insub[6] || q->nsb3 != insub[7] || q->vari != vlx->index[insub[0]]) subbad = 1;
  }
  for(b = 0; b < g->nboxes; b++) for(k = 0; k < vlF->n; k++) forallpoints(g->box[b], i) g->box[b]->v[vlF->index[k]][i] = 0;
  for(k = 0; k < nOp; k++)
    g->box[Op[k].rb]->v[vlF->index[Op[k].rv]][Op[k].rp] += Op[k].k * g->box[Op[k].cb]->v[vlx->index[Op[k].cv]][Op[k].cp]
      * g->box[Op[k].rb]->v[c1->index[0]][Op[k].rp] * g->box[Op[k].cb]->v[c2->index[0]][Op[k].cp];
}
static int bystanders(tGrid *g) { int b, k; for(b = 0; b < g->nboxes; b++) forallpoints(g->box[b], k) if(g->box[b]->v[spby][k] != 100 * b + k) return 0; return 1; }
static void field(tGrid *g, int var, char *s) { int b, k; char *e = s; for(b = 0; b < g->nboxes; b++) forallpoints(g->box[b], k) { g->box[b]->v[var][k] = strtod(e, &e); if(*e == ',') e++; } }
/* spbuild how threads drop nv ncols shape op c d sub */
static void c_spbuild(int c, char **v)
{
  int thr = A(2), nv = A(4), n = A(5), k, b; char *s, *t, *cc, *dd; tGrid *g; tSparseVector **M;
  tVarList *vx, *vf, *v1, *v2; double w[MAXU], z[MAXU];
  g = spgrid(v[6]); setpar("LinAlg_setABStozero_below", v[3]);
  nOp = 0; memset(insub, 0, sizeof(insub)); subbad = 0;
  for(t = strtok_r(v[7], ",", &s); t; t = strtok_r(NULL, ",", &s))
    if(sscanf(t, "%d.%d.%d:%d.%d.%d:%lf", &Op[nOp].rb, &Op[nOp].rp, &Op[nOp].rv, &Op[nOp].cb, &Op[nOp].cp, &Op[nOp].cv, &Op[nOp].k) == 7) nOp++;
  nums(v[8], w); nums(v[9], z);
  field(g, spc, v[8]); field(g, spd, v[9]);
  vx = vlalloc(g); vf = vlalloc(g); v1 = vlalloc(g); v2 = vlalloc(g);
  for(k = 0; k < nv; k++) { vlpushone(vx, spx[(5 - k) % 4]); vlpushone(vf, spf[(k * 3 + 2) % 4]); }   /* not in the order of the variables */
  vlpushone(v1, spc); vlpushone(v2, spd);
  for(k = 0; k < nv; k++) for(b = 0; b < g->nboxes; b++) { int i; forallpoints(g->box[b], i) g->box[b]->v[vx->index[k]][i] = 3 + k; }
  M = AllocateSparseVectorArray(n);
  omp_set_num_threads(thr);
  if(!strcmp(v[1], "lines")) SetMatrixLines_slowly(M, spFx, vf, vx, v1, v2, 0);
  else if(!strcmp(v[1], "lines_sorted")) SetMatrixLines_forSortedVars_slowly(M, spFx, vf, vx, v1, v2, 0);
  else if(!strcmp(v[1], "cols")) SetMatrixColumns_slowly(M, spFx, vf, vx, v1, v2, 0);
  else if(!strcmp(v[1], "cols_sorted")) SetMatrixColumns_forSortedVars_slowly(M, spFx, vf, vx, v1, v2, 0);
  else
  {
    int q[8]; sscanf(v[10], "%d.%d.%d.%d.%d.%d.%d.%d", q, q+1, q+2, q+3, q+4, q+5, q+6, q+7);
    if(!strcmp(v[1], "cols_one")) SetMatrixColumns_ForOneVarInOneBox_slowly(M, q[0], q[1], spFx, vf, vx, v1, v2, 0);
    else { memcpy(insub, q, sizeof(q)); SetMatrixColumns_ForOneVarInOneSubBox_slowly(M, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], spFx, vf, vx, v1, v2, 0); }
  }
  for(k = 0; k < n; k++) { if(k) res(";"); res_sv(M[k]); }
  if(!n) res("%%");
  if(!bystanders(g)) res(" another variable changed");
  for(b = 0, k = 0; b < g->nboxes; b++) { int i; forallpoints(g->box[b], i) { if(g->box[b]->v[spc][i] != w[k] || g->box[b]->v[spd][i] != z[k]) res(" coefficients changed"); k++; } }
  if(subbad) res(" wrong block given to the operator");
  FreeSparseVectorArray(M, n); vlfree(vx); vlfree(vf); vlfree(v1); vlfree(v2); free_grid(g); memset(insub, 0, sizeof(insub));
}
/* spsolve how drop nv n shape l:q:v,... unknowns b.p.v:rhs,... */
static void c_spsolve(int c, char **v)
{
  double drop = num(v[2]); int nv = A(3), n = A(4), k, m = 0, ret = 77, u[MAXU][3], nz; char *s, *t, *h = v[1]; double b[MAXU], x[MAXU];
  tGrid *g = spgrid(v[5]); tVarList *vx = vlalloc(g), *vb = vlalloc(g); tSparseVector **L = AllocateSparseVectorArray(n), **C = AllocateSparseVectorArray(n);
  for(k = 0; k < nv; k++) { vlpushone(vx, spx[(5 - k) % 4]); vlpushone(vb, spf[(k * 3 + 2) % 4]); }
  for(t = strtok_r(v[6], ",", &s); t; t = strtok_r(NULL, ",", &s))
  { int l, q; double w; if(sscanf(t, "%d:%d:%lf", &l, &q, &w) == 3) { AddToSparseVector(L[l], q, w); AddToSparseVector(C[q], l, w); m++; } }   /* given by lines, so columns are ascending */
  nz = m; m = 0;
  for(t = strtok_r(v[7], ",", &s); t; t = strtok_r(NULL, ",", &s), m++)
  { sscanf(t, "%d.%d.%d:%lf", u[m], u[m]+1, u[m]+2, &b[m]); g->box[u[m][0]]->v[vb->index[u[m][2]]][u[m][1]] = b[m]; g->box[u[m][0]]->v[vx->index[u[m][2]]][u[m][1]] = -99; x[m] = -99; }
  if(!strcmp(h, "lapack")) ret = lapack_dgesv(L, vx, vb, 0);
  else if(!strcmp(h, "di_lines")) ret = umfpack_di_solve_fromAlines(L, vx, vb, drop, 0);
  else if(!strcmp(h, "di_lines_sorted")) ret = umfpack_di_solve_forSortedVars_fromAlines(L, vx, vb, drop, 0);
  else if(!strcmp(h, "di_cols")) ret = umfpack_di_solve_fromAcolumns(C, vx, vb, drop, 0);
  else if(!strcmp(h, "di_cols_sorted")) ret = umfpack_di_solve_forSortedVars_fromAcolumns(C, vx, vb, drop, 0);
  else if(!strcmp(h, "dl_cols")) ret = umfpack_dl_solve_fromAcolumns(C, vx, vb, drop, 0);
  else if(!strcmp(h, "spqr_cols")) ret = SuiteSparseQR_solve_fromAcolumns(C, vx, vb, drop, 0);
  else if(!strcmp(h, "di_packed"))
  {
    int *Ap, *Ai; double *Ax; allocate_umfpack_di_matrix(&Ap, &Ai, &Ax, n, nz + 1);
    set_umfpack_di_matrix_from_lines(Ap, Ai, Ax, L, n, drop, 0); ret = umfpack_di_solve_from_Ap_Ai_Ax(Ap, Ai, Ax, vx, vb, 0); free_umfpack_di_matrix(Ap, Ai, Ax);
  }
  else if(!strcmp(h, "spqr_arrays"))
  {
    tSPQR_A Q; cholmod_sparse *S; allocate_and_init_tSPQR_A_struct(&Q, n, nz, 0); S = Q.A;
    set_umfpack_dl_matrix_from_columns(S->p, S->i, S->x, C, n, drop, 0);
    SuiteSparseQR_C_factorize_tSPQR_A(&Q, 0); ret = SuiteSparseQR_solve_from_tSPQR_A_x_b(Q, x, b, 0); free_tSPQR_A_struct(&Q); m = -m;
  }
  else
  {
    LONGINT *Ap, *Ai; double *Ax, Info[200]; allocate_umfpack_dl_matrix(&Ap, &Ai, &Ax, n, nz + 1);
    set_umfpack_dl_matrix_from_columns(Ap, Ai, Ax, C, n, drop, 0);
    if(!strcmp(h, "dl_packed")) ret = umfpack_dl_solve_from_Ap_Ai_Ax(Ap, Ai, Ax, vx, vb, 0);
    else if(!strcmp(h, "dl_arrays")) { ret = umfpack_dl_solve_from_Ap_Ai_Ax_x_b(Ap, Ai, Ax, x, b, n, 0); m = -m; }
    else
    {
      tUMFPACK_A U; int r1; memset(&U, 0, sizeof(U)); U.sys = 0; U.Ap = Ap; U.Ai = Ai; U.Ax = Ax; U.Info = Info;
      r1 = umfpack_dl_numeric_from_tUMFPACK_A(&U, n, 0); if(r1 != U.NumericInfo) res("!info ");
      ret = umfpack_dl_solve_from_tUMFPACK_A_x_b(U, x, b, 0); m = -m;
    }
    free_umfpack_dl_matrix(Ap, Ai, Ax);
  }
  if(m > 0) for(k = 0; k < m; k++) { x[k] = g->box[u[k][0]]->v[vx->index[u[k][2]]][u[k][1]]; if(g->box[u[k][0]]->v[vb->index[u[k][2]]][u[k][1]] != b[k]) res("!right-hand side changed "); }
  if(!bystanders(g)) res("!another variable changed ");
  res("%d ", ret); res_nums(x, m < 0 ? -m : m);
  FreeSparseVectorArray(L, n); FreeSparseVectorArray(C, n); vlfree(vx); vlfree(vb); free_grid(g);
}

/* ---------------- iterative linear solvers */
typedef int (*linsol)(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *), void (*)(tVarList *, tVarList *, tVarList *, tVarList *));
static struct { char *name; linsol f; } LS[] = { {"bicgstab", bicgstab}, {"sor", SOR_Iterator}, {"wt", WTsolver}, {"bi_sor", bicgstab_with_SOR_precon},
  {"bi_jacobi", bicgstab_with_Jacobi_precon}, {"bi_block", bicgstab_with_BlockJacobi_precon}, {0, 0} };
static char levs[100000], lpre[16]; static int lnan, lpnan, lcalls, lpcalls, lmute, lbad; static double lbig, lA; static tVarList *lx, *lc1, *lc2;
static double vlnorm2(tVarList *l) { tGrid *g = l->grid; int b, k, i; double s = 0; for(b = 0; b < g->nboxes; b++) for(k = 0; k < l->n; k++) forallpoints(g->box[b], i) { double y = g->box[b]->v[l->index[k]][i]; s += y * y; } return s; }
static void lev(char e) { int n = strlen(levs); if(n < (int)sizeof(levs) - 2) { levs[n] = e; levs[n + 1] = 0; } }
static void lmax(double y) { if(y > lbig) lbig = y; }
static void linop(tVarList *o, tVarList *in, tVarList *c1, tVarList *c2)
{
  int first;
  if(o->n != in->n || c1->n != lc1->n || c2->n != lc2->n || c1->index[0] != lc1->index[0] || c2->index[0] != lc2->index[0]) lbad = 1;
  spFx(o, in, c1, c2);
  #pragma omp critical (drv_lin)
  { first = ++lcalls; lev('a'); if(!lmute) { if(in->grid == lx->grid) lmax(lA * sqrt(vlnorm2(lx))); lmax(lA * sqrt(vlnorm2(in))); lmax(sqrt(vlnorm2(o))); } }
  if(lnan && first == lnan) o->grid->box[0]->v[o->index[0]][0] = 0.0 / 0.0;
}
static void linpre(tVarList *o, tVarList *in, tVarList *c1, tVarList *c2)
{
  tGrid *g = o->grid; int b, k, i, j; lpcalls++; lev('p'); lmax(lA * sqrt(vlnorm2(in))); lmax(sqrt(vlnorm2(in)));
  for(b = 0; b < g->nboxes; b++) for(k = 0; k < in->n; k++) forallpoints(g->box[b], i)
  {
    double y = g->box[b]->v[in->index[k]][i];
    if(!strcmp(lpre, "diag")) { for(j = 0; j < nOp; j++) if(Op[j].rb == b && Op[j].cb == b && Op[j].rp == i && Op[j].cp == i && Op[j].rv == k && Op[j].cv == k) y /= Op[j].k; }
    else if(!strcmp(lpre, "zero")) y = 0;
    else if(!strcmp(lpre, "odd")) y *= (b + k + i + lpcalls) % 3 - 1;
    else if(!strcmp(lpre, "nan") && lpcalls == 2) y = 0.0 / 0.0;
    g->box[b]->v[o->index[k]][i] = y;
  }
}
static double linres(tGrid *g, tVarList *x, tVarList *b, int *n)
{
  tVarList *w = vlalloc(g); int k, bi, i; double s = 0; *n = 0;
  for(k = 0; k < x->n; k++) { char t[20]; int v; sprintf(t, "sgw%d", k); v = spvar(t); enablevar(g, v); vlpushone(w, v); }
  spFx(w, x, lc1, lc2);
  for(bi = 0; bi < g->nboxes; bi++) for(k = 0; k < x->n; k++) forallpoints(g->box[bi], i) { double y = g->box[bi]->v[b->index[k]][i] - g->box[bi]->v[w->index[k]][i]; s += y * y; (*n)++; }
  disablevarlist(w); vlfree(w); return s;
}
/* lin solver nv shape unknowns op b x0 itmax tol omega sub pre nanat -> ret normres start end size slack heap temps others bad events x */
static void c_lin(int c, char **v)
{
  int nv = A(2), k, ret = 77, m = 0, n, itmax = A(8), round, nb = 0, q[3], u[MAXU][3], heap = 0; char *s, *t, w[300]; double b[MAXU], x0[MAXU], tol = num(v[9]), nr, st = 0, en = 0; char h[64];
  linsol f = 0; tGrid *g; tVarList *vx, *vb, *vr, *v1, *v2;
  spvar("sgr0"); spvar("sgr1"); spvar("sgr2"); spvar("sgr3"); spvar("sgw0"); spvar("sgw1"); spvar("sgw2"); spvar("sgw3"); g = spgrid(v[3]); vx = vlalloc(g); vb = vlalloc(g); vr = vlalloc(g); v1 = vlalloc(g); v2 = vlalloc(g);
  strcpy(h, v[1]); setpar("GridIterators_SOR_matrix", "SetMatrixLines_slowly"); setpar("GridIterators_verbose", "no"); setpar("GridIterators_Preconditioner_type", "spectral UMFPACK");
  setpar("GridIterators_setABStozero_below", "0"); setpar("GridIterators_Preconditioner_itmax", "20"); setpar("GridIterators_Preconditioner_reltol", "0.001"); setpar("GridIterators_UMFPACK_version", "dl");
  setpar("GridIterators_SOR_omega", v[10]);
  if((t = strstr(h, "_sorted"))) { *t = 0; setpar("GridIterators_SOR_matrix", "SetMatrixLines_forSortedVars_slowly"); }
  if((t = strstr(h, "_qr"))) { *t = 0; setpar("GridIterators_Preconditioner_type", "spectral SPQR"); }
  for(k = 0; LS[k].name; k++) if(!strcmp(LS[k].name, h)) f = LS[k].f;
  sscanf(v[11], "%d.%d.%d", q, q + 1, q + 2);
  for(k = 0; k < 3; k++) { sprintf(w, "GridIterators_Preconditioner_BlockJacobi_nsb%d", k + 1); sprintf(levs, "%d", q[k]); setpar(w, levs); }
  for(k = 0; k < nv; k++) { vlpushone(vx, spx[(5 - k) % 4]); vlpushone(vb, spf[(k * 3 + 2) % 4]); sprintf(w, "sgr%d", k); n = spvar(w); enablevar(g, n); vlpushone(vr, n); }
  vlpushone(v1, spc); vlpushone(v2, spd); lx = vx; lc1 = v1; lc2 = v2; memset(insub, 0, sizeof(insub));
  for(k = 0; k < g->nboxes; k++) { int i; forallpoints(g->box[k], i) g->box[k]->v[spc][i] = g->box[k]->v[spd][i] = 1; }
  for(t = strtok_r(v[4], ",", &s); t; t = strtok_r(NULL, ",", &s), m++) sscanf(t, "%d.%d.%d", u[m], u[m] + 1, u[m] + 2);
  nOp = 0; lA = 0;
  for(t = strtok_r(v[5], ",", &s); t; t = strtok_r(NULL, ",", &s))
    if(sscanf(t, "%d.%d.%d:%d.%d.%d:%lf", &Op[nOp].rb, &Op[nOp].rp, &Op[nOp].rv, &Op[nOp].cb, &Op[nOp].cp, &Op[nOp].cv, &Op[nOp].k) == 7) { lA += Op[nOp].k * Op[nOp].k; nOp++; }
  lA = sqrt(lA); nums(v[6], b); nums(v[7], x0); strcpy(lpre, v[12]);
  {
    int nvar, *was; size_t h0;
    for(round = 0; round < 3; round++)      /* the least growth of memory after the first call counts */
    {
      for(k = 0; k < m; k++) { g->box[u[k][0]]->v[vb->index[u[k][2]]][u[k][1]] = b[k]; g->box[u[k][0]]->v[vx->index[u[k][2]]][u[k][1]] = x0[k]; }
      lnan = 0; lmute = 1; st = linres(g, vx, vb, &n); lbig = sqrt(vlnorm2(vb)) + lA * sqrt(vlnorm2(vx)); lmute = 0;
      nvar = g->nvariables; was = calloc(nvar + 100, sizeof(int)); for(k = 0; k < nvar; k++) was[k] = g->box[0]->v[k] != 0;
      lnan = A(13); lcalls = lpcalls = lbad = 0; levs[0] = 0; nr = -5;
      h0 = mallinfo2().uordblks;
      ret = f(vx, vb, vr, v1, v2, itmax, tol, &nr, linop, linpre);
      { int d = (int)(mallinfo2().uordblks - h0); if(round < 2 || d < heap) heap = d; }
      lnan = 0; nb = 0;
      for(k = 0; k < g->nvariables; k++) { int now = 0, bi; for(bi = 0; bi < g->nboxes; bi++) now |= g->box[bi]->v[k] != 0; if(now != (k < nvar ? was[k] : 0)) nb++; }
      free(was);
      if(nb) break;
    }
  }
  lmax(lA * sqrt(vlnorm2(vx))); en = linres(g, vx, vb, &n);
  k = bystanders(g);
  { int i, bi; for(bi = 0; bi < g->nboxes; bi++) forallpoints(g->box[bi], i) if(g->box[bi]->v[spc][i] != 1 || g->box[bi]->v[spd][i] != 1) k = 0;
    for(i = 0; i < m; i++) if(g->box[u[i][0]]->v[vb->index[u[i][2]]][u[i][1]] != b[i]) k = 0; }
  res("%d ", ret); res_dbl(nr); res(" "); res_dbl(st); res(" "); res_dbl(en); res(" %d ", n); res_dbl(lbig); res(" %d %d %d %d %s ", heap, nb, k, lbad, levs[0] ? levs : "%");
  for(k = 0; k < m; k++) { if(k) res(","); res_dbl(g->box[u[k][0]]->v[vx->index[u[k][2]]][u[k][1]]); }
  vlfree(vx); vlfree(vb); vlfree(vr); vlfree(v1); vlfree(v2); free_grid(g);
}

/* ---------------- Newton's method: u_i = u * w_i, F_i = g(u) w_i, J = 1 or g' */
static jmp_buf nwjmp; static char nwev[60000], nwform[200]; static int nwm, nwfull, nwL, nwcalls, nwbad, nwloose, nwswap, nwstop; static double nwW, nwg, nwtab[20], nwlam; static tVarList *nwu, *nwf, *nwdu, *nwres, *nwc1, *nwc2, *nwd1, *nwd2;
static struct { int ret; double d; int slope; } nwscr[8]; static int nwscrn; static void (*nwP)(tVarList *, tVarList *, tVarList *, tVarList *);
static void nwe(const char *fmt, ...) { va_list a; int n = strlen(nwev); va_start(a, fmt); if(n < (int)sizeof(nwev) - 200) { if(n) nwev[n++] = ','; vsnprintf(nwev + n, 150, fmt, a); } else { nwfull = 1; if(++nwstop > 100000) longjmp(nwjmp, 1); } va_end(a); }
static double nww(int b, int k, int i) { return 1 + ((b * 3 + k * 5 + i * 2) % 7); }
static double nwfun(double u)
{
  double a[4] = {0, 0, 0, 0}; char k[20];
  if(nwm > 0) { int q = (int)floor(u + 0.5) % nwm; if(u != u) return u; if(q < 0) q += nwm; if(fabs(u - floor(u + 0.5)) > 1e-9) return 777; return nwtab[q]; }
  sscanf(nwform, "%19[^:]:%lf:%lf:%lf", k, a, a + 1, a + 2);
  if(!strcmp(k, "line")) return a[0] * u + a[1];
  if(!strcmp(k, "quad")) return a[0] * u * u + a[1];
  if(!strcmp(k, "cube")) return u * u * u - a[0] * u + a[1];
  if(!strcmp(k, "exp")) return exp(a[0] * u) - a[1];
  if(!strcmp(k, "atan")) return atan(a[0] * u) + a[1];
  if(!strcmp(k, "step")) return u > a[0] ? a[1] : a[2];
  if(!strcmp(k, "abs")) return fabs(u - a[0]) + a[1];
  if(!strcmp(k, "root")) return sqrt(u - a[0]) - a[1];
  if(!strcmp(k, "osc")) return a[0] * u * sin(5 * u) + a[1];
  if(!strcmp(k, "wells")) return 5 - 4.5 * exp(-200 * (u - a[0]) * (u - a[0])) - 4.8 * exp(-200 * (u - a[1]) * (u - a[1]));
  return a[0];
}
static double nwat(tVarList *l)     /* the common factor, and whether there is one */
{
  tGrid *g = l->grid; int b, k, i; double f = g->box[0]->v[l->index[0]][0] / nww(0, 0, 0);
  for(b = 0; b < g->nboxes; b++) for(k = 0; k < l->n; k++) forallpoints(g->box[b], i)
  { double y = g->box[b]->v[l->index[k]][i], z = f * nww(b, k, i); if(!(fabs(y - z) <= 1e-12 * (1 + fabs(z))) && y == y && !nwloose) nwbad = 1; }
  return f;
}
static void nwset(tVarList *l, double f) { tGrid *g = l->grid; int b, k, i; for(b = 0; b < g->nboxes; b++) for(k = 0; k < l->n; k++) forallpoints(g->box[b], i) g->box[b]->v[l->index[k]][i] = f * nww(b, k, i); }
static void nwFu(tVarList *o, tVarList *u, tVarList *c1, tVarList *c2) { double f; if(o != nwf || u != nwu || c1 != nwc1 || c2 != nwc2) nwbad = 2; f = nwat(u); nwg = nwfun(f); nwe("F%.17g:%.17g", f, nwg); nwset(o, nwg); }
static void nwJ(tVarList *o, tVarList *d, tVarList *d1, tVarList *d2)
{ double f; if(d1 != nwd1 || d2 != nwd2) nwbad = 3; if(o == nwres && d != nwdu) nwbad = 4; f = d == nwdu && o == nwres ? nwat(d) : 1e99; if(f == 1e99) nwe("J"); else nwe("J%.17g", f); vlcopy(o, d); }
static void nwPre(tVarList *o, tVarList *d, tVarList *d1, tVarList *d2) { if(d1 != nwd1 || d2 != nwd2) nwbad = 5; nwe("P"); vlcopy(o, d); }
static int nwLin(int who, tVarList *du, tVarList *F, tVarList *r, tVarList *d1, tVarList *d2, int m, double tol, double *nr, void *J, void *P)
{
  int k = nwL++ % nwscrn; double u = nwu->grid->box[0]->v[nwu->index[0]][0] / nww(0, 0, 0), g = nwat(F), d = nwscr[k].d;
  if(du != nwdu || F != nwf || r != nwres || d1 != nwd1 || d2 != nwd2 || J != (void *)nwJ || P != (void *)nwPre) nwbad = 6;
  *nr = tol / 2;
  if(nwscr[k].slope) { double h = 1e-6 * (1 + fabs(u)); d = d * g / ((nwfun(u + h) - nwfun(u - h)) / (2 * h)); }
  nwe("L%d:%.17g:%.17g:%.12g:%d:%.17g", who, u, g, 2 * tol / nwW, m, d);
  nwset(du, d); nwset(r, 0.125);
  return nwscr[k].ret;
}
static int nwLin1(tVarList *du, tVarList *F, tVarList *r, tVarList *d1, tVarList *d2, int m, double tol, double *nr, void (*J)(tVarList *, tVarList *, tVarList *, tVarList *), void (*P)(tVarList *, tVarList *, tVarList *, tVarList *)) { return nwLin(1, du, F, r, d1, d2, m, tol, nr, J, P); }
static int nwLin2(tVarList *du, tVarList *F, tVarList *r, tVarList *d1, tVarList *d2, int m, double tol, double *nr, void (*J)(tVarList *, tVarList *, tVarList *, tVarList *), void (*P)(tVarList *, tVarList *, tVarList *, tVarList *)) { return nwLin(2, du, F, r, d1, d2, m, tol, nr, J, P); }
extern int (*Newton_do_before_linSolver)(tGrid *grid, tNewtonResults inp, tNewtonArgPointers out);
extern int (*Newton_do_after_step)(tVarList *vlFu, tVarList *vlu, tVarList *vlc1, tVarList *vlc2);
static int nwB(tGrid *g, tNewtonResults in, tNewtonArgPointers out) { nwe("B%.17g", in.lambda); nwcalls++; if(nwswap && nwcalls == nwswap) *out.linSolver = nwLin2; return 0; }
static int nwA(tVarList *F, tVarList *u, tVarList *c1, tVarList *c2) { double f; if(F != nwf || u != nwu || c1 != nwc1 || c2 != nwc2) nwbad = 7; f = nwat(u); nwe("A%.17g:%.17g", f, nwfun(f)); return 0; }
static double nwbyst(tGrid *g, int nv) { int b, k, i; double s = 0; for(b = 0; b < g->nboxes; b++) for(k = 0; k < g->nvariables; k++) { int own = 0, q; double *p = g->box[b]->v[k];
  for(q = 0; q < nv; q++) own |= k == nwu->index[q] || k == nwf->index[q] || k == nwdu->index[q] || k == nwres->index[q]; own |= strstr(VarName(k), "_GridIterators") != 0; if(p && !own) forallpoints(g->box[b], i) s += p[i] * (1 + i % 5); } return s; }
/* newton nv shape g u0 itmax tol step atmin solvers minstep eps endofstep script fac lintol linitmax hooks swap loose -> ret normres u bad full others events */
static void c_newton(int c, char **v)
{
  int nv = A(1), k, ret, n = 0, b, i, h = A(17); double nr = -5, tol = num(v[6]), o0; char *s, *t, w[40]; tGrid *g;
  for(k = 0; k < nv; k++) { sprintf(w, "sgnu%d", k); spvar(w); sprintf(w, "sgnf%d", k); spvar(w); sprintf(w, "sgnd%d", k); spvar(w); sprintf(w, "sgnr%d", k); spvar(w); }
  g = spgrid(v[2]); nwu = vlalloc(g); nwf = vlalloc(g); nwdu = vlalloc(g); nwres = vlalloc(g); nwc1 = vlalloc(g); nwc2 = vlalloc(g); nwd1 = vlalloc(g); nwd2 = vlalloc(g);
  for(k = 0; k < nv; k++) { tVarList *l[4] = {nwu, nwf, nwdu, nwres}; char p[] = "ufdr"; for(i = 0; i < 4; i++) { int q; sprintf(w, "sgn%c%d", p[i], (k + i) % nv); q = spvar(w); enablevar(g, q); vlpushone(l[i], q); } }
  vlpushone(nwc1, spc); vlpushone(nwc2, spd); vlpushone(nwd1, spd); vlpushone(nwd2, spc);
  nwm = 0; strcpy(nwform, v[3]); if(nwform[0] && nwform[strlen(nwform) - 1] == '.') { for(t = strtok_r(v[3], ".", &s); t; t = strtok_r(NULL, ".", &s)) nwtab[nwm++] = num(t); }
  setpar("GridIterators_verbose", "no"); setpar("GridIterators_Newtonstep", v[7]); setpar("GridIterators_Newton_atlocalMin", v[8]); setpar("GridIterators_Newton_linSolvers", v[9]);
  setpar("GridIterators_Newton_minstep", v[10]); setpar("GridIterators_Newton_randomstepsize", v[11]); setpar("GridIterators_Newton_EndOfStep", v[12]);
  for(k = 0; k < g->nboxes; k++) { sprintf(w, "box%d_Coordinates", k); setpar(w, "Cartesian"); }
  nwscrn = 0; for(t = strtok_r(v[13], ",", &s); t; t = strtok_r(NULL, ",", &s)) { char *q = strchr(t, ':'); nwscr[nwscrn].ret = atoi(t); nwscr[nwscrn].slope = q[1] == 'n'; nwscr[nwscrn].d = num(q + 1 + (q[1] == 'n')); nwscrn++; }
  nwW = 0; for(b = 0; b < g->nboxes; b++) for(k = 0; k < nv; k++) forallpoints(g->box[b], i) { double y = nww(b, k, i); nwW += y * y; n++; }
  nwW = sqrt(nwW / n); nwset(nwu, num(v[4])); nwset(nwf, 0.75); nwset(nwdu, 0); nwset(nwres, 0);
  nwev[0] = 0; nwL = nwcalls = nwbad = nwfull = nwstop = 0; nwswap = A(18); nwloose = A(19);
  Newton_do_before_linSolver = h & 1 ? nwB : 0; Newton_do_after_step = h & 2 ? nwA : 0; o0 = nwbyst(g, nv);
  if(setjmp(nwjmp)) { Newton_do_before_linSolver = 0; Newton_do_after_step = 0; res("endless"); free_grid(g); return; }
  ret = Newton(nwFu, nwJ, nwu, nwf, nwc1, nwc2, A(5), tol * nwW, &nr, 0, nwLin1, nwPre, nwdu, nwres, nwd1, nwd2, A(16), num(v[14]), num(v[15]) * nwW);
  k = nwbyst(g, nv) == o0 && bystanders(g);
  res("%d ", ret); res_dbl(nr / nwW); res(" "); res_dbl(nwat(nwu)); res(" "); res_dbl(nwfun(nwat(nwu))); res(" %d %d %d %s", nwbad, nwfull, k, nwev[0] ? nwev : "%");
  Newton_do_before_linSolver = 0; Newton_do_after_step = 0;
  vlfree(nwu); vlfree(nwf); vlfree(nwdu); vlfree(nwres); vlfree(nwc1); vlfree(nwc2); vlfree(nwd1); vlfree(nwd2); free_grid(g);
}
void drv_la_init(void)
{
  drv_register("lu", c_lu);
  drv_register("root", c_root);
  drv_register("spvec", c_spvec);
  drv_register("spbuild", c_spbuild);
  drv_register("spsolve", c_spsolve);
  drv_register("lin", c_lin);
  drv_register("newton", c_newton);
}
