/* drv_grid.c: number checker, index maps and line operations */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "drv.h"
int NumberChecker_CheckIfFinite(tGrid *grid, char *varname);
int NumberChecker_CheckIfFinite_VarList(tVarList *varlist);
#include <unistd.h>
#include <fcntl.h>
#include <stdint.h>
#define A(i) atoi(v[i])
extern tGrid *G[];

/* catch what is printed on stdout */
static int capfd = -1, oldfd = -1;
static char *captext = NULL;
void cap_begin(void)
{
  fflush(stdout); oldfd = dup(1);
  capfd = open(".", O_RDWR | O_TMPFILE, 0600);
  if(capfd < 0) { char n[64]; sprintf(n, "cap.%d", getpid()); capfd = open(n, O_RDWR | O_CREAT | O_TRUNC, 0600); unlink(n); }
  dup2(capfd, 1);
}
char *cap_end(void)
{
  off_t n; fflush(stdout); dup2(oldfd, 1); close(oldfd);
  n = lseek(capfd, 0, SEEK_END); free(captext); captext = calloc(1, n + 1); lseek(capfd, 0, SEEK_SET);
  if(read(capfd, captext, n) != n) captext[0] = 0;
  close(capfd); return captext;
}
static double bits(uint64_t b) { union { uint64_t b; double d; } u; u.b = b; return u.d; }
static double kind(const char *k, double m)
{
  if(!strcmp(k, "zero")) return 0; if(!strcmp(k, "negzero")) return -0.0; if(!strcmp(k, "one")) return 1; if(!strcmp(k, "minusone")) return -1;
  if(!strcmp(k, "tiny")) return 5e-324; if(!strcmp(k, "m")) return m; if(!strcmp(k, "minusm")) return -m;
  if(!strcmp(k, "nan")) return bits(0x7ff8000000000000ULL); if(!strcmp(k, "minusnan")) return bits(0xfff8000000000000ULL);
  if(!strcmp(k, "nan1")) return bits(0x7ff0000000000001ULL); if(!strcmp(k, "nanall")) return bits(0xffffffffffffffffULL);
  if(!strcmp(k, "inf")) return bits(0x7ff0000000000000ULL); if(!strcmp(k, "minusinf")) return bits(0xfff0000000000000ULL);
  if(!strcmp(k, "abovem")) return nextafter(m, 1e308); if(!strcmp(k, "belowminusm")) return nextafter(-m, -1e308);
  res("!kind %s", k); return 0;
}
static void c_nc_init(int c, char **v)
{
  static const char *co[] = { "x", "y", "z", "X", "Y", "Z" }; int b, i, k; tGrid *g;
  AddPar("storage_verbose", "no", ""); AddPar("NumberChecker_INF", v[1], ""); AddPar("NumberChecker_exitifNAN", "u", "");
  for(k = 0; k < 6; k++) AddVar((char *)co[k], "", "");
  AddVar("u", "", ""); AddVar("w", "", "");
  g = G[1] = alloc_grid(3, globalnvariables);
  alloc_box(g, 0, 2, 1, 1); alloc_box(g, 1, 1, 1, 1); alloc_box(g, 2, 1, 3, 1);
  for(k = 0; k < 6; k++) enablevar(g, Ind((char *)co[k]));
  forallboxes(g, b) for(k = 0; k < 6; k++) for(i = 0; i < g->box[b]->nnodes; i++) g->box[b]->v[Ind((char *)co[k])][i] = 1000 * (k + 1) + 100 * b + i;
  res("ok");
}
/* nc_set var k,k;k;- : kinds of numbers, box by box */
static void c_nc_set(int c, char **v)
{
  int iv = Ind(v[1]), b = 0, i; char *s, *t, *p, *q; tGrid *g = G[1];
  for(t = strtok_r(v[2], ";", &s); t; t = strtok_r(NULL, ";", &s), b++)
  {
    if(!strcmp(t, "-")) { disablevar_inbox(g->box[b], iv); continue; }
    enablevar_inbox(g->box[b], iv); i = 0;
    for(p = strtok_r(t, ",", &q); p; p = strtok_r(NULL, ",", &q)) g->box[b]->v[iv][i++] = kind(p, Getd("NumberChecker_INF"));
  }
  res("ok");
}
static void c_nc_check(int c, char **v)      /* nc_check var...: one: CheckIfFinite, several: the list */
{
  int n; char *t;
  cap_begin();
  if(c == 2) n = NumberChecker_CheckIfFinite(G[1], v[1]);
  else
  { tVarList *l = vlalloc(G[1]); int i; for(i = 1; i < c; i++) vlpushone(l, Ind(v[i])); n = NumberChecker_CheckIfFinite_VarList(l); vlfree(l); }
  t = cap_end(); res("%d ", n); res_str(t);
}

/* ---- index maps and loops */
static void lst(const char *t, int *a, int n)
{
  int i; res("%s", t); for(i = 0; i < n; i++) res("%s%d", i ? "," : "", a[i]);
}
static int cmpi(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
#define PUT (a[m++] = Index(i,j,k))
static int smooth(int i, int j, int k, int *l, int first)
{
  int d = abs(i - l[0]) + abs(j - l[1]) + abs(k - l[2]); l[0] = i; l[1] = j; l[2] = k; return first || d == 1;
}
static void coords_vars(void);
/* lo_index n1 n2 n3: points of each index, index of each point, planes by every kind of loop */
static void c_lo_index(int c, char **v)
{
  int n1 = A(1), n2 = A(2), n3 = A(3), n = n1 * n2 * n3, *a = malloc((8 * n + 8) * sizeof(int)), m = 0, i, j, k, ijk, N, p, l[3], ok;
  tGrid *g; tBox *box;
  coords_vars(); g = alloc_grid(1, globalnvariables); alloc_box(g, 0, n1, n2, n3); box = g->box[0];
  res("size=%d;", box->nnodes);
  forallpoints(box, ijk)
  {
    k = kOfInd_n1n2(ijk, n1, n2); j = jOfInd_n1n2_k(ijk, n1, n2, k); i = iOfInd_n1n2_jk(ijk, n1, n2, j, k);
    if(Index(i, j, k) != ijk || Ind_n1n2(i, j, k, n1, n2) != ijk) res("!%d", ijk);
    res("%s%d.%d.%d", m++ ? "," : "", i, j, k);
  }
  res(";");
  for(N = 1; N <= 3; N++) for(p = 0; p < (N == 1 ? n1 : N == 2 ? n2 : n3); p++)
  {
    m = 0;
    if(N == 1) forplane1(i, j, k, n1, n2, n3, p) PUT; if(N == 2) forplane2(i, j, k, n1, n2, n3, p) PUT; if(N == 3) forplane3(i, j, k, n1, n2, n3, p) PUT;
    qsort(a, m, sizeof(int), cmpi); lst("|", a, m); m = 0;
    forplaneN(N, i, j, k, n1, n2, n3, p) PUT;
    qsort(a, m, sizeof(int), cmpi); lst("|", a, m); m = 0;
    ok = 1;
    if(N == 1) forplane1_nojump(i, j, k, n1, n2, n3, p) { ok = smooth(i, j, k, l, m == 0) && ok; PUT; }
    if(N == 2) forplane2_nojump(i, j, k, n1, n2, n3, p) { ok = smooth(i, j, k, l, m == 0) && ok; PUT; }
    if(N == 3) forplane3_nojump(i, j, k, n1, n2, n3, p) { ok = smooth(i, j, k, l, m == 0) && ok; PUT; }
    qsort(a, m, sizeof(int), cmpi); lst(ok ? "|" : "|jump", a, m); m = 0;
    forinnerplaneN(N, i, j, k, n1, n2, n3, p) PUT;
    qsort(a, m, sizeof(int), cmpi); lst("|", a, m);
  }
  free(a); free_grid(g);
}
/* ---- operations along lines; the box is the second one of its grid */
static const char *ROLE[] = { "D", "DD", "A", "S", "F", "I", "tA", "tD", "tS" }, *REG[] = { "u", "v", "c", "q" };
static double *MAT[9][4]; static int LN[4]; static double LLO[4], LW[4]; static tBox *LB; static tGrid *LG, *LG1;
static void mul(double *M, double *x, double *y, int n) { int i, j; for(i = 0; i < n; i++) { double s = 0; for(j = 0; j < n; j++) s += M[i * n + j] * x[j]; y[i] = s; } }
#define PTRS(d) \
static void gc##d(double *c, double *u, int n) { if(n != LN[d] - 1) res("!n"); mul(MAT[6][d], u, c, n + 1); } \
static void ev##d(double *c, double *u, int n) { if(n != LN[d] - 1) res("!n"); mul(MAT[8][d], c, u, n + 1); } \
static void cd##d(void *aux, double a, double b, double *c, double *e, int n) { int i; if(n != LN[d] - 1 || aux != LB) res("!n"); mul(MAT[7][d], c, e, n + 1); for(i = 0; i <= n; i++) e[i] *= (b - a) / 60; } \
static double bs##d(void *aux, double a, double b, int k, int n, double X) { if(aux != LB || n != LN[d]) res("!n"); return fmod((k + 1) * X + k * k + a + (b - a) / 60 + n, 7); }
PTRS(1) PTRS(2) PTRS(3)
static double *dupl(double *x, int n) { double *y = malloc(n * sizeof(double)); memcpy(y, x, n * sizeof(double)); return y; }
static int numbers(char *t, double *x)
{
  char *s, *p; int n = 0; for(p = strtok_r(t, ",", &s); p; p = strtok_r(NULL, ",", &s)) x[n++] = atof(p); return n;
}
static int role(char *t) { int i; for(i = 0; i < 9; i++) if(!strcmp(t, ROLE[i])) return i; return 0; }
static void coords_vars(void)
{
  static const char *co[] = { "x", "y", "z", "X", "Y", "Z" }; int k;
  static int done = 0; if(done++) return;
  AddPar("storage_verbose", "no", ""); AddPar("Spectral_second_deriv_order", "123", "");
  AddPar("box0_Coordinates", "Cartesian", ""); AddPar("box1_Coordinates", "SphericalDF", "");
  for(k = 0; k < 6; k++) AddVar((char *)co[k], "", "");
  for(k = 0; k < 4; k++) AddVar((char *)REG[k], "", "");
}
/* lo_set n1 n2 n3 lo1 lo2 lo3 w1 w2 w3 fft1 fft2 fft3 */
static void c_lo_set(int c, char **v)
{
  int d, k;
  coords_vars();
  LG = alloc_grid(2, globalnvariables); alloc_box(LG, 0, 2, 3, 2); alloc_box(LG, 1, A(1), A(2), A(3)); LB = LG->box[1];
  for(d = 1; d <= 3; d++) { LN[d] = A(d); LLO[d] = A(3 + d); LW[d] = A(6 + d); LB->bbox[2 * d - 2] = LLO[d]; LB->bbox[2 * d - 1] = LLO[d] + 60 * LW[d]; }
  LB->TransformType1 = A(10); LB->TransformType2 = A(11); LB->TransformType3 = A(12);
#define SET(d) LB->get_coeffs##d = gc##d; LB->eval_onPoints##d = ev##d; LB->coeffs_of_deriv##d = cd##d; LB->basis##d = bs##d;
  SET(1) SET(2) SET(3)
  for(k = 0; k < 4; k++) enablevar_inbox(LB, Ind((char *)REG[k]));
  res("ok");
}
static void c_lo_mat(int c, char **v)        /* lo_mat role d numbers */
{
  int r = role(v[1]), d = A(2); double *M = malloc((LN[d] * LN[d] + 1) * sizeof(double));
  numbers(v[3], M); MAT[r][d] = M;
#define PTR(d,x1,x2,x3) (d == 1 ? &LB->x1 : d == 2 ? &LB->x2 : &LB->x3)
  if(r == 0) *PTR(d, D1, D2, D3) = dupl(M, LN[d] * LN[d]);
  if(r == 1) *PTR(d, DD1, DD2, DD3) = dupl(M, LN[d] * LN[d]);
  if(r == 2) *PTR(d, Mcoeffs1, Mcoeffs2, Mcoeffs3) = dupl(M, LN[d] * LN[d]);
  if(r == 3) *PTR(d, Meval1, Meval2, Meval3) = dupl(M, LN[d] * LN[d]);
  if(r == 4) *PTR(d, F1, F2, F3) = dupl(M, LN[d] * LN[d]);
  if(r == 5) *PTR(d, Int1, Int2, Int3) = dupl(M, LN[d] * LN[d]);
  res("ok");
}
static double *reg(char *t) { return LB->v[Ind(t)]; }
static void show(double *x, int n) { int i; for(i = 0; i < n; i++) res("%s%.10g", i ? "," : "", x[i] + 0.0); }
static void c_lo_reg(int c, char **v) { numbers(v[2], reg(v[1])); res("ok"); }
static void c_lo_twice_box0(int c, char **v) /* data in the first box, which is not to change */
{
  int k, i; for(k = 0; k < 4; k++) { enablevar_inbox(LG->box[0], Ind((char *)REG[k])); for(i = 0; i < LG->box[0]->nnodes; i++) LG->box[0]->v[Ind((char *)REG[k])][i] = 3 * i * i + k; }
  res("ok");
}
static void c_lo_op(int c, char **v)
{
  char *o = v[1]; int k, n1 = LN[1], n2 = LN[2], n3 = LN[3], n = n1 * n2 * n3; double line[1000];
  if(!strcmp(o, "Deriv")) spec_Deriv1(LB, A(2), reg(v[3]), reg(v[4]));
  else if(!strcmp(o, "Deriv2")) spec_Deriv2(LB, A(2), reg(v[3]), reg(v[4]));
  else if(!strcmp(o, "All"))
  {
    double *x[9]; Sets("Spectral_second_deriv_order", v[2]);
    for(k = 0; k < 9; k++) x[k] = malloc((n + 1) * sizeof(double));
    spec_allDerivs(LB, reg(v[3]), x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]);
    for(k = 0; k < 9; k++) { res(k ? "/" : ""); show(x[k], n); free(x[k]); }
  }
  else if(!strcmp(o, "Ana")) spec_analysis1(LB, A(2), reg(v[3]), reg(v[4]));
  else if(!strcmp(o, "Syn")) spec_synthesis1(LB, A(2), reg(v[4]), reg(v[3]));
  else if(!strcmp(o, "AnaM")) spec_analysis1_diffmatrix(LB, A(2), MAT[4][A(2)], reg(v[3]), reg(v[4]));
  else if(!strcmp(o, "SynM")) spec_synthesis1_diffmatrix(LB, A(2), MAT[4][A(2)], reg(v[4]), reg(v[3]));
  else if(!strcmp(o, "AnaIn")) spec_analysis1_inplaneN(LB, A(2), A(3), A(4), reg(v[5]), reg(v[6]));
  else if(!strcmp(o, "SynIn")) spec_synthesis1_inplaneN(LB, A(2), A(3), A(4), reg(v[6]), reg(v[5]));
  else if(!strcmp(o, "Coeffs")) spec_Coeffs(LB, reg(v[2]), reg(v[3]));
  else if(!strcmp(o, "Eval")) spec_Eval(LB, reg(v[3]), reg(v[2]));
  else if(!strcmp(o, "List"))
  {
    tVarList *a = vlalloc(LG), *b = vlalloc(LG); vlpushone(a, Ind(v[2])); vlpushone(b, Ind(v[3])); spec_Coeffs_varlist(LB, a, b); vlfree(a); vlfree(b);
  }
  else if(!strcmp(o, "CoeffsIn")) spec_Coeffs_inplaneN(LB, A(2), A(3), reg(v[4]), reg(v[5]));
  else if(!strcmp(o, "EvalIn")) spec_Eval_inplaneN(LB, A(2), A(3), reg(v[5]), reg(v[4]));
  else if(!strcmp(o, "Filter")) spec_filter1(LB, A(2), reg(v[3]));
  else if(!strcmp(o, "Filter3")) spec_filter3d_inbox(LB, Ind(v[2]), Ind(v[3]), A(4), A(5), A(6));
  else if(!strcmp(o, "Over") || !strcmp(o, "Over2") || !strcmp(o, "Over3"))
  {
    tBox keep = *LB; int m = o[4] == '3'; char **w = v + (m ? 4 : 5); double r = 0;
#define INT(d) LB->TransformType##d = 0; LB->get_coeffs##d = !strcmp(w[d - 1], "cheb") ? cheb_coeffs_fromExtrema : four_coeffs;
    INT(1) INT(2) INT(3)
    if(o[4] == 0) spec_Integral1(LB, A(2), reg(v[3]), reg(v[4]));
    else if(o[4] == '2') spec_2dIntegral(LB, A(2), reg(v[3]), reg(v[4]));
    else { r = spec_3dIntegral(LB, reg(v[2]), reg(v[3])); show(&r, 1); }
    LB->get_coeffs1 = keep.get_coeffs1; LB->get_coeffs2 = keep.get_coeffs2; LB->get_coeffs3 = keep.get_coeffs3;
    LB->TransformType1 = keep.TransformType1; LB->TransformType2 = keep.TransformType2; LB->TransformType3 = keep.TransformType3;
  }
  else if(!strcmp(o, "At")) { double r = spec_interpolate(LB, reg(v[2]), A(3), A(4), A(5)); show(&r, 1); }
  else if(!strcmp(o, "AtIn")) { double r = spec_interpolate_inplaneN(LB, A(2), A(3), reg(v[4]), A(5), A(6)); show(&r, 1); }
  else if(!strcmp(o, "AtLine")) { double r = spec_interpolate_in_dir_at_i1_i2(LB, A(2), A(3), A(4), reg(v[5]), A(6)); show(&r, 1); }
  else if(!strcmp(o, "Get"))
  {
    int d = A(2), l = d >= 1 && d <= 3 ? LN[d] : 1; line[l] = 4711; get_memline(reg(v[5]), line, d, A(3), A(4), n1, n2, n3); show(line, l); if(line[l] != 4711) res("!over");
  }
  else if(!strcmp(o, "Put")) { numbers(v[6], line); put_memline(reg(v[5]), line, A(2), A(3), A(4), n1, n2, n3); }
  else if(!strcmp(o, "Int")) spec_Int1(LB, A(2), reg(v[3]), reg(v[4]));
  else if(!strcmp(o, "Regrid"))      /* Regrid var temp X,Y,Z,X,Y,Z,... */
  {
    int m = numbers(v[4], line) / 3, i; tBox *b;
    LG1 = alloc_grid(2, globalnvariables); alloc_box(LG1, 0, 1, 2, 1); alloc_box(LG1, 1, 1, m, 1); b = LG1->box[1];
    enablevar_inbox(b, Ind("X")); enablevar_inbox(b, Ind("Y")); enablevar_inbox(b, Ind("Z")); enablevar_inbox(b, Ind(v[2]));
    for(i = 0; i < m; i++) { b->v[Ind("X")][i] = line[3 * i]; b->v[Ind("Y")][i] = line[3 * i + 1]; b->v[Ind("Z")][i] = line[3 * i + 2]; }
    spec_interpolate_Var_from_grid2_to_grid1(LG1, LG, Ind(v[2]), Ind(v[3]));
    show(b->v[Ind(v[2])], m); free_grid(LG1);
  }
  else if(!strcmp(o, "Fill")) numbers(v[3], reg(v[2]));
  else if(!strcmp(o, "Mean"))
  {
    tVarList *a = vlalloc(LG); int i, b; vlpushone(a, Ind(v[2]));
    reset_doubleCoveredPoints(a);
    vlfree(a); b = 0;
    for(k = 0; k < 4; k++) for(i = 0; i < LG->box[0]->nnodes; i++) if(LG->box[0]->v[Ind((char *)REG[k])][i] != 3 * i * i + k) b = 1;
    if(b) res("!box0");
  }
  else if(!strcmp(o, "Copy")) copy_to_doubleCoveredPoints_SphericalDF(LB, Ind(v[2]));
  else { res("!op"); return; }
  for(k = 0; k < 4; k++) { res("|"); show(reg((char *)REG[k]), n); }
}
void drv_grid_init(void)
{
  drv_register("nc_init", c_nc_init); drv_register("nc_set", c_nc_set); drv_register("nc_check", c_nc_check);
  drv_register("lo_index", c_lo_index); drv_register("lo_set", c_lo_set); drv_register("lo_mat", c_lo_mat); drv_register("lo_reg", c_lo_reg); drv_register("lo_op", c_lo_op); drv_register("lo_box0", c_lo_twice_box0);
}
