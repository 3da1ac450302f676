/* drv_num.c: time integrators; data come from val(), so that both sides know them */
#include "drv.h"
#include "MemoryMan.h"
int sgrid_evolve(void);
#define A(i) atoi(v[i])
extern tGrid *G[];

/* data of call k (0: start), variable v, box b, point i: multiples of 1/1024 */
double val(int k, int v, int b, int i)
{
  unsigned long long x = k * 7919ULL + v * 104729ULL + b * 1299709ULL + i * 15485863ULL + 12345;
  x ^= x >> 13; x *= 0x9E3779B97F4A7C15ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32;
  return (double)((long long)(x % 4194304) - 2097152) / 1024.0;
}
static int ncalls = 0, nv0 = 0;
static tVarList *cur = NULL;
static int now = 0;
static void vlvals(tVarList *u)
{
  int j, b, i; tGrid *g = G[1];
  for(j = 0; j < u->n; j++) forallboxes(g, b)
  {
    double *d = g->box[b]->v[u->index[j]];
    if(!d) { res(" ~"); continue; }
    forallpoints(g->box[b], i) res(" %.17g", d[i]);
  }
}
/* the names of w are those of the list, with something added */
static void names(const char *what, tVarList *w)
{
  int j;
  if(w->grid != G[1]) res("!%sgrid", what);
  if(w->n != cur->n) { res("!%s%d", what, w->n); return; }
  for(j = 0; j < w->n; j++) if(strncmp(VarName(w->index[j]), VarName(cur->index[j]), strlen(VarName(cur->index[j])))) res("!%s%s", what, VarName(w->index[j]));
}
static void rhs(int f, tVarList *n, tVarList *p, double c, tVarList *u)
{
  tGrid *g = G[1]; int b, j, i;
  ncalls++; res(";rhs %d ", f); res_dbl(c);
  names("new", n); names("pre", p); names("cur", u);
  res("|"); vlvals(p); res("|"); vlvals(u);
  forallboxes(g, b) for(j = 0; j < u->n && j < n->n; j++)
  {
    double *d = g->box[b]->v[n->index[j]], *q = g->box[b]->v[p->index[j]];
    if(!d) continue;
    forallpoints(g->box[b], i) { double k = val(ncalls, cur->index[j], b, i); d[i] = c == 0 ? k : q[i] + c * k; }
  }
}
static void rhs1(tVarList *n, tVarList *p, double c, tVarList *u) { rhs(1, n, p, c, u); }
static void rhs2(tVarList *n, tVarList *p, double c, tVarList *u) { rhs(2, n, p, c, u); }
static void rhs3(tVarList *n, tVarList *p, double c, tVarList *u) { rhs(3, n, p, c, u); }
static void rhs4(tVarList *n, tVarList *p, double c, tVarList *u) { rhs(4, n, p, c, u); }
static void alg(int f, tVarList *n, tVarList *p)
{
  tGrid *g = G[1]; int b, j, i;
  ncalls++; res(";alg %d ", f);
  names("new", n); names("pre", p);
  res("|"); vlvals(n); res("|"); vlvals(p);
  forallboxes(g, b) for(j = 0; j < n->n; j++)
  {
    double *d = g->box[b]->v[n->index[j]], *q = g->box[b]->v[p->index[j]];
    if(!d || !q) continue;
    forallpoints(g->box[b], i) { if(i % 3 == 0) d[i] = val(ncalls, cur->index[j], b, i); else if(i % 3 == 1) d[i] = q[i]; }
  }
}
static void alg1(tVarList *n, tVarList *p) { alg(1, n, p); }
static void alg2(tVarList *n, tVarList *p) { alg(2, n, p); }

/* evo_init n1,n2,n3 per box...: variables u w gx gy gz zz */
static void c_evo_init(int c, char **v)
{
  int b, j, i, a[3]; tGrid *g;
  AddPar("physics", "", ""); AddPar("storage_verbose", "no", ""); sgrid_evolve();
  AddVar("u", "", ""); AddVar("w", "", ""); AddVar("g", "i", ""); AddVar("zz", "", "");
  g = G[1] = alloc_grid(c - 1, globalnvariables);
  for(b = 0; b < c - 1; b++) { ints(v[b + 1], a); alloc_box(g, b, a[0], a[1], a[2]); }
  for(j = 0; j < globalnvariables; j++) { enablevar(g, j); forallboxes(g, b) forallpoints(g->box[b], i) g->box[b]->v[j][i] = val(0, j, b, i); }
  nv0 = globalnvariables; res("ok");
  for(j = 0; j < nv0; j++) res(" %s", VarName(j));
}
/* evo_step method rkmethod vars alg f dt keep change dbg it time */
static void c_evo_step(int c, char **v)
{
  tGrid *g = G[1]; char *t, *sp, nm[200]; int i, j;
  static void (*F[])(tVarList *, tVarList *, double, tVarList *) = { NULL, rhs1, rhs2, rhs3, rhs4 };
  static void (*B[])(tVarList *, tVarList *) = { NULL, alg1, alg2 };
  cur = strcmp(v[3], "none") ? vlalloc(g) : NULL;
  if(cur) for(t = strtok_r(v[3], ",", &sp); t; t = strtok_r(NULL, ",", &sp)) vlpushone(cur, Ind(t));
  Sets("evolution_method", v[1]); Sets("evolution_method_rk", v[2]); Sets("evolve_persist", A(7) ? "yes" : "no");
  for(t = v[8]; *t; t++) if(*t == ',') *t = ' ';
  Sets("evolve_compute_change", v[8]); Sets("evolve_euler_debug", A(9) ? "yes" : "no");
  g->dt = num(v[6]); g->iteration = A(10); g->time = num(v[11]);
  evolve_vlregister(cur); evolve_rhsregister(F[A(5)]); evolve_algebraicConditionsregister(B[A(4)]);
  RunFun(EVOLVE, g);
  res(";end"); 
  { tVarList *all = vlalloc(g); for(j = 0; j < nv0; j++) vlpushone(all, j); vlvals(all); vlfree(all); }
  res(";old");
  for(j = 0; j < cur->n; j++)
  {
    tVarList *w = vlalloc(g); snprintf(nm, 199, "%s_p", VarName(cur->index[j])); i = IndLax(nm);
    if(i < 0) res(" ~ ~"); else { vlpushone(w, i); vlvals(w); }
    vlfree(w);
  }
  res(";change");
  for(j = 0; j < cur->n; j++)
  {
    tVarList *w = vlalloc(g); snprintf(nm, 199, "%s_change", VarName(cur->index[j])); i = IndLax(nm);
    if(i < 0) res(" ~ ~"); else { vlpushone(w, i); vlvals(w); }
    vlfree(w);
  }
  res(";left");     /* further storage of variables of the list that is still there */
  for(j = nv0; j < g->nvariables; j++)
  {
    char *n = VarName(j), *p = strrchr(n, '_');
    if(!g->box[0]->v[j] || !p || strcmp(p, "_change") == 0) continue;
    for(i = 0; i < cur->n; i++) if(strlen(VarName(cur->index[i])) == p - n && strncmp(VarName(cur->index[i]), n, p - n) == 0) res(" %s", p);
  }
}
void drv_num_init(void)
{
  drv_register("evo_init", c_evo_init); drv_register("evo_step", c_evo_step);
}
