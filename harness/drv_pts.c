/* drv_pts.c: integer lists, box lists, point lists, boundary faces */
#include "drv.h"
#include "MemoryMan.h"
extern tGrid *G[];
#define A(i) atoi(v[i])
static intList *I[16];
static tPointList *P[16];
#define II(k) (I[k] ? I[k] : (I[k] = alloc_intList()))
static void c_ipush(int c, char **v) { push_intList(II(A(1)), A(2)); res("ok"); }
static void c_iunionpush(int c, char **v) { unionpush_intList(II(A(1)), A(2)); res("ok"); }
static void c_ipushlist(int c, char **v) { pushlist_intList(II(A(1)), II(A(2))); res("ok"); }
static void c_iunionlist(int c, char **v) { unionpushlist_intList(II(A(1)), II(A(2))); res("ok"); }
static void c_idropindex(int c, char **v) { dropindex_intList(II(A(1)), A(2)); res("ok"); }
static void c_idrop(int c, char **v) { drop_intList(II(A(1)), A(2)); res("ok"); }
static void c_idroplastn(int c, char **v) { droplastn_intList(II(A(1)), A(2)); res("ok"); }
static void c_idroplist(int c, char **v) { droplist_intList(II(A(1)), II(A(2))); res("ok"); }
static void c_iclear(int c, char **v) { clear_intList(II(A(1))); res("ok"); }
static void c_iduplicate(int c, char **v)
{ intList *d = duplicate_intList(II(A(1))); free_intList(II(A(2))); I[A(2)] = d; res("ok"); }
static void c_iin(int c, char **v) { res("%d", in_intList(II(A(1)), A(2))); }
static void c_iindex(int c, char **v) { res("%d", index_intList(II(A(1)), A(2))); }
static int ge(int x, void *p) { return x >= *(int *)p; }
static void c_iindexprop(int c, char **v) { int x = A(3); res("%d", index_prop_intList(II(A(1)), A(2), ge, &x)); }
static void c_blattr(int c, char **v) { res("%d", bladd_ifAttrib(G[1], 3, A(2), II(A(1)))); }
static void c_blnotattr(int c, char **v) { res("%d", bladd_ifnotAttrib(G[1], 3, A(2), II(A(1)))); }
static void c_bl2attr(int c, char **v) { res("%d", bl2_ifAttrib(G[1], II(A(1)), 3, A(2), II(A(3)))); }
static void c_bl2notattr(int c, char **v) { res("%d", bl2_ifnotAttrib(G[1], II(A(1)), 3, A(2), II(A(3)))); }
static void c_setattr(int c, char **v) { G[1]->box[A(1)]->Attrib[3] = A(2); res("ok"); }
static void c_setoff(int c, char **v)
{ intList *l = alloc_intList(); push_intList(l, A(1)); if(A(2)) deactivate_boxes(G[1], l); else activate_boxes(G[1], l); free_intList(l); res("ok"); }
/* point lists */
static void c_palloc(int c, char **v) { P[A(1)] = AllocatePointList(G[1]); res("ok"); }
static void c_pfree(int c, char **v) { FreePointList(P[A(1)]); P[A(1)] = NULL; res("ok"); }
static void c_paddmany(int c, char **v) { int i; for(i = 0; i < A(3); i++) AddToPointList(P[A(1)], A(2), i % 6); res("ok"); }
static void c_ipushmany(int c, char **v) { int i; for(i = 0; i < A(2); i++) push_intList(II(A(1)), i % 6); res("ok"); }
static void c_padd(int c, char **v) { AddToPointList(P[A(1)], A(2), A(3)); res("ok"); }
static void c_pdrop(int c, char **v) { DropFromPointList(P[A(1)], A(2), A(3)); res("ok"); }
static void c_pdroplist(int c, char **v) { DropListFromPointList(P[A(1)], A(2), II(A(3))); res("ok"); }
static void c_pduplicate(int c, char **v) { P[A(2)] = DuplicatePointList(P[A(1)]); res("ok"); }
void res_pl(tPointList *p, int nb)
{
  int b;
  if(!p) { res("~"); return; }
  for(b = 0; b < nb; b++) { if(b) res("/"); if(p->npoints[b] && !p->point[b]) res("!"); res_ints(p->point[b], p->npoints[b]); }
  res(":"); res_ints(p->blist, p->nblist);
}
/* dumplp ni np: integer lists, point lists, what the loops over the point lists see */
static void c_dumplp(int c, char **v)
{
  int k, ni = A(1), np = A(2), b, pi, ijk, n;
  tGrid *g = G[1];
  for(k = 1; k <= ni; k++) { res(k > 1 ? " " : ""); res_ints(II(k)->e, II(k)->n); }
  for(k = 1; k <= np; k++)
  {
    tPointList *p = P[k];
    res(" "); res_pl(p, g->nboxes);
    if(!p) continue;
    res("=");
    n = 0;
    forPointList(p, b, pi, ijk) res(n++ ? ",%d.%d" : "%d.%d", b, ijk);
    res("=");
    for(b = 0; b < g->nboxes; b++)
    {
      tBox *box = g->box[b];
      res(b ? "/" : ""); n = 0;
      forPointList_inbox(p, box, pi, ijk) res(n++ ? ",%d" : "%d", ijk);
    }
  }
}
#define R(n) drv_register(#n, c_##n)
void drv_pts_init(void)
{
  R(ipush); R(iunionpush); R(ipushlist); R(iunionlist); R(idropindex); R(idrop); R(idroplastn); R(idroplist); R(iclear);
  R(iduplicate); R(iin); R(iindex); R(iindexprop); R(blattr); R(blnotattr); R(bl2attr); R(bl2notattr); R(setattr); R(setoff);
  R(palloc); R(pfree); R(padd); R(paddmany); R(ipushmany); R(pdrop); R(pdroplist); R(pduplicate); R(dumplp);
}
