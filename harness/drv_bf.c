/* drv_bf.c: boundary faces */
#include "drv.h"
#include "MemoryMan.h"
extern tGrid *G[];
#define A(i) atoi(v[i])
int mark_all_bfaces_without_ob_as_outerbound(tGrid *grid);
int set_ofi_in_all_bfaces(tGrid *grid);
int add_boxface_as_outerbound_bface(tBox *box, int f);
int zero_setnormalderiv_flag_in_all_bfaces(tGrid *grid);
int set_consistent_flags_in_all_bfaces(tGrid *grid);
void set_all_bfaces_with_ob_minus1_to_outerbound(tGrid *grid, int b0, int nb);
#define B G[A(1)]->box[A(2)]
static void c_bfkind(int c, char **v) { B->CI->type = A(3); B->CI->dom = A(4); res("ok"); }
static void c_bfadd(int c, char **v) { res("%d", add_empty_bface(B, A(3))); }
static void c_bfpoint(int c, char **v) { res("%d", add_point_to_bface_inbox(B, A(3), A(4), A(5))); }
static void c_bfremove(int c, char **v) { res("%d", remove_bface(B, A(3))); }
static void c_bfremovenull(int c, char **v) { res("%d", remove_bfaces_with_NULL_fpts(B)); }
static void c_bffree(int c, char **v) { free_all_bfaces(B); res("ok"); }
static void c_bfother(int c, char **v) { B->bface[A(3)]->ob = A(4); res("ok"); }
static void c_bflink(int c, char **v)
{
  tBface *x = B->bface[A(3)], *y = G[A(1)]->box[A(4)]->bface[A(5)];
  x->ob = A(4); x->ofi = A(5); x->touch = 1; y->ob = A(2); y->ofi = A(3); y->touch = 1;
  x->sameX = 1; y->sameZ = 1; x->same_fpts = 1; y->fpts_off_face = 1; x->oXi = 7; y->oYi = 8; x->innerbound = 1;
  res("ok");
}
static void c_bfouterside(int c, char **v) { res("%d", add_boxface_as_outerbound_bface(B, A(3))); }
static void c_bfmarkouter(int c, char **v) { res("%d", mark_all_bfaces_without_ob_as_outerbound(G[A(1)])); }
static void c_bffillouter(int c, char **v) { set_all_bfaces_with_ob_minus1_to_outerbound(G[A(1)], A(2), A(3)); res("ok"); }
static void c_bfnumber(int c, char **v) { res("%d", set_ofi_in_all_bfaces(G[A(1)])); }
static void c_bfzerosnd(int c, char **v) { res("%d", zero_setnormalderiv_flag_in_all_bfaces(G[A(1)])); }
static void c_bfflags(int c, char **v)
{
  char t[100] = "populate_bfaces";
  if(A(2)) snprintf(t, 99, "populate_bfaces setnormalderiv_order%d", A(2));
  if(!GetsLax("Coordinates_bface_options")) AddPar("Coordinates_bface_options", "x", "");
  Sets("Coordinates_bface_options", t);
  res("%d", set_consistent_flags_in_all_bfaces(G[A(1)]));
}
static void c_bfneigh(int c, char **v)
{
  intList *a = alloc_intList(), *b = alloc_intList(); int n, m;
  push_intList(b, 77);            /* new boxes are added behind what is in the list */
  n = bladd_neighbors(B, a); m = bladd_neighbors_of_neighbors(B, b);
  res_ints(a->e, a->n); res(" "); res_ints(b->e, b->n); if(n != a->n || m != b->n) res(" count!");
  free_intList(a); free_intList(b);
}
static void c_bfdump(int c, char **v)
{
  int n = A(1), k, b, i, o;
  for(k = 1; k <= n; k++)
    for(b = 0; b < G[k]->nboxes; b++)
    {
      tBox *x = G[k]->box[b];
      res(b ? " " : k > 1 ? " | " : "");
      if(!x->nbfaces) res("%%");
      for(i = 0; i < x->nbfaces; i++)
      {
        tBface *q = x->bface[i];
        res(i ? ";" : "");
        if(q->b != b || q->fi != i || q->grid != G[k]) res("!");
        for(o = 0; o < i; o++) if(q == x->bface[o] || (q->fpts && q->fpts == x->bface[o]->fpts)) res("shared!");
        res("%d:%d:%d:%d%d%d:", q->f, q->ob, q->ofi, q->outerbound, q->setnormalderiv, q->touch);
        if(!q->fpts) res("~");
        else
        {
          if(q->fpts->grid != G[k]) res("grid!");
          for(o = 0; o < G[k]->nboxes; o++) if(o != b && q->fpts->npoints[o]) res("box%d!", o);
          res_ints(q->fpts->point[b], q->fpts->npoints[b]);
        }
      }
    }
}
#define R(n) drv_register(#n, c_##n)
void drv_bf_init(void)
{
  R(bfkind); R(bfadd); R(bfpoint); R(bfremove); R(bfremovenull); R(bffree); R(bfother); R(bflink); R(bfouterside); R(bfmarkouter);
  R(bffillouter); R(bfnumber); R(bfzerosnd); R(bfflags); R(bfneigh); R(bfdump);
}
