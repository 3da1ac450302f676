/* drv_run.c: whole program runs of sgrid inside a scratch directory, with a physics module that
   reports every call it gets, and with faults (kill, error) injected at file operations.

   sandbox                         fresh scratch directory SB (below the working directory)
   mkfile path text                user actions on files in SB
   mkdirp/rmtree/mv/symlink
   run FAULT arg...                libsgrid_main in a child process; result: "exit n|sig n fired=f" and events
       FAULT: "-" or kind,op,nr[,it]  kind: kill (before the op), torn (half of a write is done, then killed),
              after (killed after op), fail (op fails once), full (op and all later ones of that kind fail)
              op: open write close rename remove mkdir system any; nr: 1.. counts ops of that kind
              it: count only during what comes after POST_OUTPUT of iteration it (i.e. in checkpoint()),
                  "start": only before the first event
   tree                            all files of SB
*/
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "drv.h"
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <ftw.h>
#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
int libsgrid_main(int argc, char **argv);
int sgrid_VerifPhys(void);
extern int (*verif_init_hook)(void);

/* ------------------------------------------------------------------ events */
static int evfd = -1, inrun = 0;
static char SB[4000];                     /* absolute path of the scratch directory */
static char evpath[4200];
static int nev = 0;
static void ev(const char *fmt, ...)
{
  char b[4000]; int n; va_list ap;
  va_start(ap, fmt); n = vsnprintf(b, sizeof b - 2, fmt, ap); va_end(ap);
  if(n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n'; nev++;
  if(evfd >= 0) { ssize_t r = write(evfd, b, n); (void)r; }
}
static char *dstr(double x)
{
  static char b[8][64]; static int k; char *s = b[k = (k + 1) % 8];
  if(x != x) return strcpy(s, "nan");
  if(x > DBL_MAX) return strcpy(s, "inf");
  if(x < -DBL_MAX) return strcpy(s, "-inf");
  if(x == (long long)x && fabs(x) < 1e15) sprintf(s, "%lld", (long long)x);
  else sprintf(s, "%.17g", x);
  return s;
}

/* ------------------------------------------------------------------ faults */
enum { O_OPEN, O_WRITE, O_CLOSE, O_RENAME, O_REMOVE, O_MKDIR, O_SYSTEM, NOP };
static const char *opname[] = { "open", "write", "close", "rename", "remove", "mkdir", "system", "any" };
static struct { char kind[8]; int op, nr, it; int on, fired, count; } F;
static int win_it = -1, win_start = 1;    /* where the run is */
static int opcount[NOP];
static void die(void) { fflush(NULL); _exit(0); }
static int inwindow(void)
{
  if(F.it == -2) return win_start;
  if(F.it >= 0) return win_it == F.it;
  return 1;
}
/* 0: go on; 1: fail; 2: killed after a part (writes); 3: kill afterwards */
static int op(int k)
{
  if(!inrun || !inwindow()) return 0;
  opcount[k]++;
  if(!F.on || (F.op != NOP && F.op != k)) return 0;
  F.count++;
  if(F.count < F.nr) return 0;
  if(F.count > F.nr) return strcmp(F.kind, "full") == 0;
  F.fired = 1; ev("!fired");
  if(strcmp(F.kind, "kill") == 0) kill(getpid(), SIGKILL);
  if(strcmp(F.kind, "torn") == 0) return 2;
  if(strcmp(F.kind, "after") == 0) return 3;
  return 1;
}
static void slay(void) { kill(getpid(), SIGKILL); }

#ifndef __SANITIZE_ADDRESS__
/* ------------------------------------------------------------------ interposed file operations */
#define REAL(name) __typeof__(&name) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)
/* path must stay inside SB */
static int inside(const char *p)
{
  char b[8000], out[8000]; char *t, *sp; size_t n = strlen(SB);
  if(*p == '/') snprintf(b, sizeof b, "%s", p);
  else { char c[4000]; if(!getcwd(c, sizeof c)) return 0; snprintf(b, sizeof b, "%s/%s", c, p); }
  out[0] = 0;
  for(t = strtok_r(b, "/", &sp); t; t = strtok_r(NULL, "/", &sp))
  {
    if(strcmp(t, ".") == 0) continue;
    if(strcmp(t, "..") == 0) { char *e = strrchr(out, '/'); if(e) *e = 0; continue; }
    strcat(out, "/"); strcat(out, t);
  }
  return strncmp(out, SB, n) == 0 && (out[n] == '/' || out[n] == 0);
}
static void guard(const char *what, const char *p)
{
  if(inside(p)) return;
  ev("!escape:%s:%s", what, p); _exit(88);
}
int rename(const char *a, const char *b)
{
  REAL(rename); int r, f;
  if(!inrun) return real(a, b);
  guard("rename", a); guard("rename", b);
  f = op(O_RENAME);
  if(f == 1) { errno = EIO; return -1; }
  r = real(a, b);
  if(f) slay();
  return r;
}
int remove(const char *a)
{
  REAL(remove); int r, f;
  if(!inrun) return real(a);
  guard("remove", a);
  f = op(O_REMOVE);
  if(f == 1) { errno = EACCES; return -1; }
  r = real(a);
  if(f) slay();
  return r;
}
int unlink(const char *a)
{
  REAL(unlink); int r, f;
  if(!inrun) return real(a);
  guard("unlink", a); f = op(O_REMOVE);
  if(f == 1) { errno = EACCES; return -1; }
  r = real(a); if(f) slay();
  return r;
}
int rmdir(const char *a)
{
  REAL(rmdir); int r, f;
  if(!inrun) return real(a);
  guard("rmdir", a); f = op(O_REMOVE);
  if(f == 1) { errno = EACCES; return -1; }
  r = real(a); if(f) slay();
  return r;
}
int mkdir(const char *a, mode_t m)
{
  REAL(mkdir); int r, f;
  if(!inrun) return real(a, m);
  guard("mkdir", a);
  f = op(O_MKDIR);
  if(f == 1) { errno = ENOSPC; return -1; }
  r = real(a, m);
  if(f) slay();
  return r;
}
/* streams opened for writing go through our own write and close */
struct ck { int fd; };
static ssize_t ck_write(void *c, const char *b, size_t n)
{
  struct ck *k = c; int f = op(O_WRITE); size_t w = 0;
  if(f == 1) { errno = ENOSPC; return 0; }   /* nothing written: reported as an error by stdio */
  if(f == 2) n = n / 2;
  while(w < n) { ssize_t r = write(k->fd, b + w, n - w); if(r <= 0) return w; w += r; }
  if(f) slay();
  return w;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return read(((struct ck *)c)->fd, b, n); }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = lseek(((struct ck *)c)->fd, *o, w); if(r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c)
{
  struct ck *k = c; int f = op(O_CLOSE), r;
  r = close(k->fd); free(k);
  if(f == 1) { errno = EIO; return -1; }
  if(f) slay();
  return r;
}
FILE *fopen(const char *p, const char *m)
{
  REAL(fopen);
  if(!inrun || !strpbrk(m, "wa+")) return real(p, m);
  guard("fopen", p);
  {
    int f = op(O_OPEN), fl; struct ck *k; FILE *s;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    if(f == 1) { errno = EACCES; return NULL; }
    fl = (strchr(m, '+') ? O_RDWR : O_WRONLY) | (*m == 'w' ? O_CREAT | O_TRUNC : *m == 'a' ? O_CREAT | O_APPEND : 0);
    k = malloc(sizeof *k); k->fd = open(p, fl, 0666);
    if(k->fd < 0) { free(k); return NULL; }
    s = fopencookie(k, m, io);
    setvbuf(s, NULL, _IOFBF, 1024);
    if(f) slay();
    return s;
  }
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int lockf(int fd, int cmd, off_t len) { if(inrun) return 0; { REAL(lockf); return real(fd, cmd, len); } }
/* system(): the few commands sgrid uses, done here so that they can be cut short */
static int cpfile(const char *a, const char *b)
{
  char buf[512]; ssize_t n; int i = open(a, O_RDONLY), o, f;
  if(i < 0) return 1;
  f = op(O_OPEN); if(f == 1) { close(i); return 1; }
  o = open(b, O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if(o < 0) { close(i); return 1; }
  if(f) slay();
  while((n = read(i, buf, sizeof buf)) > 0)
  {
    f = op(O_WRITE);
    if(f == 1) { close(i); close(o); return 1; }
    if(f == 2) n /= 2;
    if(write(o, buf, n) != n) return 1;
    if(f) slay();
  }
  close(i); close(o);
  return 0;
}
static int cmpname(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static int cptree(const char *a, const char *b)
{
  struct stat st; DIR *d; struct dirent *e; char *names[2000]; int n = 0, i, r = 0;
  if(lstat(a, &st)) return 1;
  if(S_ISLNK(st.st_mode)) { char l[4000]; ssize_t k = readlink(a, l, sizeof l - 1); if(k < 0) return 1; l[k] = 0; return symlink(l, b) != 0; }
  if(!S_ISDIR(st.st_mode)) return cpfile(a, b);
  i = op(O_MKDIR);
  if(i == 1) return 1;
  { __typeof__(&mkdir) rm = (__typeof__(&mkdir)) dlsym(RTLD_NEXT, "mkdir"); rm(b, 0777); }
  if(i) slay();
  d = opendir(a); if(!d) return 1;
  while((e = readdir(d))) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names[n++] = strdup(e->d_name);
  closedir(d);
  qsort(names, n, sizeof *names, cmpname);
  for(i = 0; i < n; i++)
  {
    char x[8000], y[8000]; snprintf(x, sizeof x, "%s/%s", a, names[i]); snprintf(y, sizeof y, "%s/%s", b, names[i]);
    r |= cptree(x, y);
  }
  return r;
}
static int rmtree(const char *a);
int system(const char *cmd)
{
  REAL(system);
  char c[10000], *w[100], *sp, *t; int n = 0, i, f;
  if(!inrun) return real(cmd);
  if(!cmd) return 1;
  if(strlen(cmd) >= sizeof c) { ev("!system:long"); return 256; }
  strcpy(c, cmd);
  for(t = strtok_r(c, " ", &sp); t && n < 99; t = strtok_r(NULL, " ", &sp)) w[n++] = t;
  f = op(O_SYSTEM);
  if(f == 1) return 256;
  if(n < 2) { ev("!system:%s", cmd); return 256; }
  for(i = 1; i < n; i++) if(w[i][0] != '-') guard("system", w[i]);
  i = 256;
  if(strcmp(w[0], "cp") == 0 && n == 4)
  {
    struct stat st; char y[8000]; snprintf(y, sizeof y, "%s", w[3]);
    if(!stat(w[3], &st) && S_ISDIR(st.st_mode)) { char *b = strrchr(w[2], '/'); snprintf(y, sizeof y, "%s/%s", w[3], b ? b + 1 : w[2]); }
    i = cptree(w[2], y) ? 256 : 0;
  }
  else if(strcmp(w[0], "cp") == 0 && n == 3) i = cpfile(w[1], w[2]) ? 256 : 0;
  else if(strcmp(w[0], "mv") == 0) i = rename(w[n-2], w[n-1]) ? 256 : 0;
  else if(strcmp(w[0], "rm") == 0) { for(i = 1; i < n; i++) if(w[i][0] != '-') rmtree(w[i]); i = 0; }
  else if(strcmp(w[0], "mkdir") == 0) i = mkdir(w[n-1], 0777) ? 256 : 0;
  else ev("!system:%s", cmd);
  if(f) slay();
  return i;
}
#endif

/* ------------------------------------------------------------------ the physics module */
static const char *phasename[NFUNCTIONS] = { "POST_PARAMETERS", "PRE_GRID", "POST_GRID", "PRE_COORDINATES", "COORDINATES",
  "PRE_INITIALDATA", "INITIALDATA", "POST_INITIALDATA", "PRE_EVOLVE", "EVOLVE", "PRE_POST_EVOLVE", "POST_EVOLVE",
  "ANALYZE", "OUTPUT", "POST_OUTPUT", "PRE_FINALIZE_GRID", "POST_FINALIZE_GRID", "LAST" };
#define NFUN 80
static struct { int phase; char name[32], act[600]; int ncall; } fun[NFUN];
static int nfun = 0, quiet = 0, rhsmode = 0;

static unsigned long long hashgrid(tGrid *g, tVarList *vl)
{
  unsigned long long h = 1469598103934665603ULL; int b, i; size_t j;
  for(b = 0; b < g->nboxes; b++)
    for(i = 0; i < vl->n; i++)
    {
      unsigned char *p = (unsigned char *)g->box[b]->v[vl->index[i]];
      if(!p) { h ^= 77; h *= 1099511628211ULL; continue; }
      for(j = 0; j < g->box[b]->nnodes * sizeof(double); j++) { h ^= p[j]; h *= 1099511628211ULL; }
    }
  return h;
}
static int addfun(char *phase, char *name, const char *a);
static void where(tBox *b, int i, double *p)
{
  int v = b->x_of_X[1] ? Ind("x") : Ind("X"), d;
  for(d = 0; d < 3; d++) p[d] = b->v[v + d][i];
}
static int edge(tBox *b, int q)
{ int i = q % b->n1, j = q / b->n1 % b->n2, k = q / b->n1 / b->n2; return i == 0 || j == 0 || k == 0 || i == b->n1 - 1 || j == b->n2 - 1 || k == b->n3 - 1; }
/* locate:IN:OUT  answer the questions of file IN */
static void locate(tGrid *g, char *in, char *out)
{
  FILE *f, *o; int k = inrun, l[64], nl, c, i, b, d, j, face[6]; char w[16], t[40], lt[400]; double q[4], p[4], r;
  inrun = 0; f = fopen(in, "r"); o = fopen(out, "w"); inrun = k;
  if(!f || !o) { ev("nofile"); return; }
  while(fscanf(f, "%15s %399s %d %d %d", w, lt, &b, &d, &j) == 5)
  { /* op list|% box direction index x y z X Y Z, the last are a guess */
    char *e = lt;
    for(nl = 0; strcmp(lt, "%") != 0 && e && *e; e = strchr(e, ',') ? strchr(e, ',') + 1 : NULL) l[nl++] = atoi(e);
    for(i = 0; i < 6; i++) { if(fscanf(f, "%39s", t) != 1) break; if(i < 3) p[i] = num(t); else q[i - 3] = num(t); }
    c = i = -1; r = -9;
    if(strcmp(w, "all") == 0 || strcmp(w, "list") == 0)
    {
      c = w[0] == 'a' ? b_XYZ_of_xyz(g, q, q + 1, q + 2, p[0], p[1], p[2]) : b_XYZ_of_xyz_inboxlist(g, l, nl, q, q + 1, q + 2, p[0], p[1], p[2]);
      for(i = 0; i < 3; i++) p[i] = q[i];
      if(c >= 0 && c < g->nboxes && g->box[c]->x_of_X[1]) for(i = 0; i < 3; i++) p[i] = g->box[c]->x_of_X[i + 1](g->box[c], -1, q[0], q[1], q[2]);
      fprintf(o, "%d %.17g %.17g %.17g %.17g %.17g %.17g", c, q[0], q[1], q[2], p[0], p[1], p[2]);
      if(c >= 0 && c < g->nboxes) for(i = 0; i < 6; i++) fprintf(o, " %.17g", g->box[c]->bbox[i]);
      fprintf(o, "\n");
    }
    else if(w[0] == 'n')
    {
      c = b;
      if(strcmp(w, "nall") == 0) r = nearest_b_XYZ_of_xyz(g, &c, &i, q, q + 1, q + 2, p[0], p[1], p[2]);
      else if(strcmp(w, "nlist") == 0) r = nearest_b_XYZ_of_xyz_inboxlist(g, l, nl, &c, &i, q, q + 1, q + 2, p[0], p[1], p[2]);
      else if(strcmp(w, "nbox") == 0) r = nearestXYZ_of_xyz(g->box[b], &i, q, q + 1, q + 2, p[0], p[1], p[2]);
      else if(strcmp(w, "ninner") == 0) r = nearestinnerXYZ_of_xyz(g->box[b], &i, q, q + 1, q + 2, p[0], p[1], p[2]);
      else if(strcmp(w, "nplane") == 0) r = nearestXYZ_of_xyz_inplane(g->box[b], &i, q, q + 1, q + 2, p[0], p[1], p[2], d, j);
      fprintf(o, "%d %d %.17g %.17g %.17g %.17g\n", c, i, r, q[0], q[1], q[2]);
    }
    else if(strcmp(w, "face") == 0)
    {
      c = XYZ_on_face(g->box[b], face, p[0], p[1], p[2]); fprintf(o, "%d", c);
      for(i = 0; i < 6; i++) fprintf(o, " %d", face[i]);
      fprintf(o, "\n");
    }
    else if(strcmp(w, "move") == 0)
    { c = moveXYZ_off_face(g->box[b], p, p + 1, p + 2); fprintf(o, "%d %.17g %.17g %.17g\n", c, p[0], p[1], p[2]); }
    else fprintf(o, "?\n");
  }
  fclose(f); fclose(o);
}
/* faces:FILE[:same:b0:nb]  write boxes, the places of their boundary points, and all faces to FILE */
static void facesto(tGrid *g, char *file, char *how, int b0, int nb)
{
  FILE *f; int b, i, d, fi, np = 0, m = 0, k = 0; double (*P)[3], L = 0;
  if(strcmp(how, "same") == 0)
  { k = set_touching_bfaces_of_boxes_with_same_facepoints(g, b0, nb); set_all_bfaces_with_ob_minus1_to_outerbound(g, b0, nb); ev("same %d", k); }
  k = inrun; inrun = 0; f = fopen(file, "w"); inrun = k; if(!f) { ev("nofile"); return; }
  for(b = 0; b < g->nboxes; b++) np += g->box[b]->nnodes;
  P = malloc(np * sizeof(*P));
  fprintf(f, "{\"boxes\":[");
  for(b = 0; b < g->nboxes; b++)
  {
    tBox *x = g->box[b];
    fprintf(f, "%s{\"n\":[%d,%d,%d],\"cart\":%d,\"type\":%d,\"per\":[%d,%d,%d],\"at\":[", b ? "," : "", x->n1, x->n2, x->n3, x->x_of_X[1] == NULL, x->CI->type, x->periodic[1], x->periodic[2], x->periodic[3]);
    for(i = 0; i < x->nnodes; i++)
    {
      double p[3]; int q = -1;
      if(edge(x, i))
      {
        where(x, i, p);
        for(q = 0; q < m; q++) { L = 1 + fabs(p[0]) + fabs(p[1]) + fabs(p[2]); if(fabs(P[q][0]-p[0]) + fabs(P[q][1]-p[1]) + fabs(P[q][2]-p[2]) < 1e-8 * L) break; }
        if(q == m) { for(d = 0; d < 3; d++) P[m][d] = p[d]; m++; }
      }
      fprintf(f, "%s%d", i ? "," : "", q);
    }
    fprintf(f, "]}");
  }
  fprintf(f, "],\"faces\":[");
  for(b = 0; b < g->nboxes; b++)
  {
    tBox *x = g->box[b];
    fprintf(f, "%s[", b ? "," : "");
    for(fi = 0; fi < x->nbfaces; fi++)
    {
      tBface *c = x->bface[fi]; int *e = c->fpts ? c->fpts->point[b] : NULL, ne = c->fpts ? c->fpts->npoints[b] : 0, other = 0;
      if(c->fpts) for(i = 0; i < g->nboxes; i++) if(i != b) other += c->fpts->npoints[i];
      fprintf(f, "%s{\"ok\":%d,\"f\":%d,\"ob\":%d,\"ofi\":%d,\"touch\":%d,\"same\":[%d,%d,%d],\"fpts\":%d,\"der\":%d,\"out\":%d,\"off\":%d,\"o\":%d,\"p\":[", fi ? "," : "",
        c->grid == g && c->b == b && c->fi == fi && other == 0, c->f, c->ob, c->ofi, c->touch, c->sameX, c->sameY, c->sameZ, c->same_fpts, c->setnormalderiv, c->outerbound, c->fpts_off_face,
        c->oXi == Ind("oX") && c->oYi == Ind("oY") && c->oZi == Ind("oZ") ? 1 : c->oXi > 0 || c->oYi > 0 || c->oZi > 0 ? 2 : 0);
      for(i = 0; i < ne; i++) fprintf(f, "%s%d", i ? "," : "", e[i]);
      fprintf(f, "],\"map\":[");
      if(c->oXi > 0 && c->ob >= 0) for(i = 0; i < ne; i++)
      { /* do oX,oY,oZ name this place in the other box? */
        tBox *o = g->box[c->ob]; double p[3], q[3], r = -1;
        where(x, e[i], p);
        if(x->v[c->oXi])
        {
          for(d = 0; d < 3; d++) q[d] = x->v[Ind("oX") + d][e[i]];
          if(o->x_of_X[1]) { double X = q[0], Y = q[1], Z = q[2]; for(d = 0; d < 3; d++) q[d] = o->x_of_X[d + 1](o, -1, X, Y, Z); }
          r = fabs(p[0]-q[0]) + fabs(p[1]-q[1]) + fabs(p[2]-q[2]);
          L = 1 + fabs(p[0]) + fabs(p[1]) + fabs(p[2]);
        }
        fprintf(f, "%s%d", i ? "," : "", r >= 0 && r <= 1e-6 * L);
      }
      fprintf(f, "]}");
    }
    fprintf(f, "]");
  }
  fprintf(f, "],\"xyz\":[");
  for(i = 0; i < m; i++) fprintf(f, "%s[%.12g,%.12g,%.12g]", i ? "," : "", P[i][0], P[i][1], P[i][2]);
  fprintf(f, "]}\n"); fclose(f); free(P);
  ev("faces");
}
/* all parameters, kept to tell later which ones have changed */
static char **snapname, **snapval; static int nsnap;
static void snap(void)
{
  int i;
  for(i = 0; i < nsnap; i++) { free(snapname[i]); free(snapval[i]); }
  nsnap = GetnParameters(); snapname = realloc(snapname, nsnap * sizeof(char *)); snapval = realloc(snapval, nsnap * sizeof(char *));
  for(i = 0; i < nsnap; i++) { snapname[i] = strdup(GetnameInd(i)); snapval[i] = strdup(GetsInd(i)); }
}
static char *quoted(const char *v)
{ static char b[20000]; char *p = b; for(; *v && p < b + 19000; v++) if(strchr(" ;%=\n\t", *v)) p += sprintf(p, "%%%02x", *v); else *p++ = *v; *p = 0; return b; }
static void diffs(void)
{ /* diff name=value ...   parameters that are no longer as they were; ~ before names of new ones */
  static char s[60000]; int i, j, m = 0; s[0] = 0;
  for(i = 0; i < GetnParameters(); i++)
  {
    char *n = GetnameInd(i), *v = GetsInd(i);
    for(j = 0; j < nsnap; j++) if(strcmp(n, snapname[j]) == 0) break;
    if(j < nsnap && strcmp(v, snapval[j]) == 0) continue;
    if(m < 50000) m += sprintf(s + m, " %s%s=", j < nsnap ? "" : "~", n), m += sprintf(s + m, "%.5000s", quoted(v));
  }
  if(GetnParameters() < nsnap) m += sprintf(s + m, " lost");
  ev("diff%.7000s", s);
}
/* does the file of current parameters hold each parameter once, as "name = value"? */
static void curcheck(void)
{
  char p[4000], *l = malloc(1 << 16); FILE *f; int n = 0, i, *seen = calloc(GetnParameters(), sizeof(int)); const char *bad = NULL;
  snprintf(p, sizeof p, "%s/sgrid_current_parameters.par", Gets("outdir"));
  if(!(f = fopen(p, "r"))) { ev("cur none"); return; }
  while(fgets(l, 1 << 16, f))
  {
    char *q = strstr(l, " = "); l[strcspn(l, "\n")] = 0; n++;
    if(!q) { bad = "line"; break; }
    *q = 0;
    for(i = 0; i < GetnParameters(); i++) if(strcmp(GetnameInd(i), l) == 0) { if(seen[i]++) bad = GetnameInd(i); if(strcmp(GetsInd(i), q + 3)) bad = GetnameInd(i); break; }
    if(i == GetnParameters()) bad = "unknown";
  }
  fclose(f); if(!bad && n != GetnParameters()) bad = "number";
  ev("cur %s", bad ? bad : "ok"); free(l); free(seen);
}
static double *kept[10]; static int nkept[10];
static void act(tGrid *g, char *spec, int nc)
{ /* op:arg..@it  or op:arg..@!call  several separated by + */
  char c[600], *t, *sp; strcpy(c, spec);
  for(t = strtok_r(c, "+", &sp); t; t = strtok_r(NULL, "+", &sp))
  {
    char *at = strchr(t, '@'), *a[12], *q, *s2; int n = 0;
    if(at && at[1] == '!') { *at = 0; if(atoi(at + 2) != nc) continue; }
    else if(at) { *at = 0; if(at[1] != '*' && (!g || g->iteration != atoi(at + 1))) continue; }
    for(q = strtok_r(t, ":", &s2); q && n < 12; q = strtok_r(NULL, ":", &s2)) a[n++] = q;
    if(!n) continue;
    if(strcmp(a[0], "set") == 0) { if(n < 3) Sets(a[1], ""); else { for(q = a[2]; *q; q++) if(*q == '~') *q = '='; else if(*q == '^') *q = ' '; Sets(a[1], a[2]); } }
    else if(strcmp(a[0], "fill") == 0)       /* fill:var:id  integers that tell variable, iteration, box and point */
    {
      int b, i, v = Ind(a[1]);
      for(b = 0; b < g->nboxes; b++) if(g->box[b]->v[v]) for(i = 0; i < g->box[b]->nnodes; i++)
        g->box[b]->v[v][i] = (((atoi(a[2]) * 8 + g->iteration) * 2 + b) * 64 + i) * (i % 3 == 1 ? -1 : 1);
    }
    else if(strcmp(a[0], "mono") == 0)       /* mono:var:c:p:q:r   c X^p Y^q Z^r, plus the box number with :b */
    {
      int b, i, v = Ind(a[1]);
      for(b = 0; b < g->nboxes; b++) for(i = 0; i < g->box[b]->nnodes; i++)
        g->box[b]->v[v][i] = num(a[2]) * pow(g->box[b]->v[Ind("X")][i], atoi(a[3])) * pow(g->box[b]->v[Ind("Y")][i], atoi(a[4])) * pow(g->box[b]->v[Ind("Z")][i], atoi(a[5])) + (n > 6 ? b : 0);
    }
    else if(strcmp(a[0], "twice") == 0)      /* x, y, z agree at points that are covered twice */
    {
      static char *co[] = { "x", "y", "z" }; int k, w, i, bad = 0, n = g->box[0]->nnodes;
      for(k = 0; k < 3; k++) for(w = 0; w < 2; w++)
      {
        double *d = g->box[0]->v[Ind(co[k])], *o = malloc(n * sizeof(double)); tVarList *l = vlalloc(g);
        memcpy(o, d, n * sizeof(double)); vlpushone(l, Ind(co[k]));
        if(w) reset_doubleCoveredPoints(l); else copy_to_doubleCoveredPoints_SphericalDF(g->box[0], Ind(co[k]));
        for(i = 0; i < n; i++) if(!(fabs(d[i] - o[i]) <= 1e-11)) bad++;
        memcpy(d, o, n * sizeof(double)); free(o); vlfree(l);
      }
      ev("twice %d", bad);
    }
    else if(strcmp(a[0], "cubes") == 0)      /* cubes:b0:dc:din1:dmid1:din2:dmid2:r0:r1 */
    {
      double w[8], xc[4] = {0,0,0,0}; int d, k, b0 = atoi(a[1]);
      for(d = 0; d < 7; d++) w[d] = num(a[d + 2]);
      switch(g->nboxes - b0)
      {
        case 13: for(d = 1; d <= 3; d++) xc[d] = w[0] * d; k = arrange_1box12CubSph_into_full_cube(g, b0, xc, w[1], w[2], w[4]); break;
        case 26: k = two_full_cubes_touching_at_x0(g, b0, w[0], w[1], w[2], w[3], w[4]); break;
        case 32: k = sphere_around_two_full_cubes_touching_at_x0(g, b0, w[0], w[1], w[2], w[3], w[4], w[5]); break;
        default: k = two_spheres_around_two_full_cubes(g, b0, w[0], w[1], w[2], w[3], w[4], w[5], w[6]);
      }
      ev("cubes %d", k);
    }
    else if(strcmp(a[0], "faces") == 0) facesto(g, a[1], n > 2 ? a[2] : "", n > 3 ? atoi(a[3]) : 0, n > 4 ? atoi(a[4]) : 0);
    else if(strcmp(a[0], "locate") == 0) locate(g, a[1], a[2]);
    else if(strcmp(a[0], "snap") == 0) snap();
    else if(strcmp(a[0], "diff") == 0) diffs();
    else if(strcmp(a[0], "update") == 0) ev("update %d", parameterio_update_pars(g));
    else if(strcmp(a[0], "curpars") == 0) { ev("curpars %d", parameterio_write_current_pars(g)); curcheck(); }
    else if(strcmp(a[0], "mvout") == 0 || strcmp(a[0], "use") == 0)      /* mvout:A:B in outdir    use:A:B  copies A to B in outdir */
    {
      char p[4000], r[4000]; int k = inrun; snprintf(p, sizeof p, "%s/%s", Gets("outdir"), a[1]); snprintf(r, sizeof r, "%s/%s", Gets("outdir"), a[2]);
      inrun = 0;
      if(strcmp(a[0], "use") == 0)
      { FILE *f = fopen(a[1], "r"), *o = fopen(r, "w"); int ch; ev("use %d", f && o ? 0 : 1); while(f && o && (ch = fgetc(f)) != EOF) fputc(ch, o); if(f) fclose(f); if(o) fclose(o); }
      else ev("mvout %d", rename(p, r));
      inrun = k;
    }
    else if(strcmp(a[0], "out") == 0)        /* out:A  content of A in outdir */
    {
      char p[4000]; static char t[6000]; FILE *f; size_t k; snprintf(p, sizeof p, "%s/%s", Gets("outdir"), a[1]);
      f = fopen(p, "r"); if(!f) ev("out %s ~", a[1]);
      else { k = fread(t, 1, 2000, f); t[k] = 0; fclose(f); ev("out %s :%s", a[1], quoted(t)); }
    }
    else if(strcmp(a[0], "num") == 0) ev("num %s %.17g", a[1], Getd(a[1]));
    else if(strcmp(a[0], "box") == 0)        /* box:b  its size, corners, first and last point */
    {
      tBox *x = g->box[atoi(a[1])]; int l = x->nnodes - 1; double *X = x->v[Ind("X")], *Y = x->v[Ind("Y")], *Z = x->v[Ind("Z")];
      ev("box %d %d %d %d | %.15g %.15g %.15g %.15g %.15g %.15g | %.15g %.15g %.15g %.15g %.15g %.15g", x->b, x->n1, x->n2, x->n3, x->bbox[0], x->bbox[1], x->bbox[2], x->bbox[3], x->bbox[4], x->bbox[5], X[0], X[l], Y[0], Y[l], Z[0], Z[l]);
    }
    else if(strcmp(a[0], "when") == 0) ev("when %d %.17g", g->iteration, g->time);
    else if(strcmp(a[0], "interp") == 0)     /* interp:FILE:var,var:par,par   % for none */
    {
      tVarList *vl = vlalloc(g); char *v, *s3;
      if(strcmp(a[2], "%")) for(v = strtok_r(a[2], ",", &s3); v; v = strtok_r(NULL, ",", &s3)) vlpush(vl, Ind(v));
      for(q = a[3]; *q; q++) if(*q == ',') *q = ' ';
      checkpoint_interpolate_Vars_get_Pars(a[1], vl, strcmp(a[3], "%") ? a[3] : ""); ev("interp"); vlfree(vl);
    }
    else if(strcmp(a[0], "keep") == 0 || strcmp(a[0], "kept") == 0)      /* keep:var:k   kept:var:k  the same in every bit? */
    {
      int b, v = Ind(a[1]), k = atoi(a[2]), m = 0; double *d;
      for(b = 0; b < g->nboxes; b++) m += g->box[b]->nnodes;
      if(a[0][3] == 'p') { free(kept[k]); kept[k] = malloc(m * sizeof(double)); nkept[k] = m; }
      d = malloc(m * sizeof(double));
      for(b = m = 0; b < g->nboxes; b++) { memcpy(d + m, g->box[b]->v[v], g->box[b]->nnodes * sizeof(double)); m += g->box[b]->nnodes; }
      if(a[0][3] == 'p') memcpy(kept[k], d, m * sizeof(double)); else ev("kept %s %d", a[1], nkept[k] == m && memcmp(kept[k], d, m * sizeof(double)) == 0);
      free(d);
    }
    else if(strcmp(a[0], "isit") == 0)       /* isit:var:c:p:q:r  is it c X^p Y^q Z^r + box number? */
    {
      int b, i, v = Ind(a[1]); double e = 0, s = 0;
      for(b = 0; b < g->nboxes; b++) for(i = 0; i < g->box[b]->nnodes; i++)
      {
        double y = num(a[2]) * pow(g->box[b]->v[Ind("X")][i], atoi(a[3])) * pow(g->box[b]->v[Ind("Y")][i], atoi(a[4])) * pow(g->box[b]->v[Ind("Z")][i], atoi(a[5])) + b, d = fabs(g->box[b]->v[v][i] - y);
        if(!(d <= e)) e = d; if(fabs(y) > s) s = fabs(y);
      }
      ev("isit %s %s", a[1], e <= 1e-9 * (1 + s) ? "yes" : dstr(e));
    }
    else if(strcmp(a[0], "onb") == 0) enablevar_inbox(g->box[atoi(a[2])], Ind(a[1]));
    else if(strcmp(a[0], "quick") == 0)      /* quick:words:time:iteration */
    { for(q = a[1]; *q; q++) if(*q == '^') *q = ' '; quick_Vars_output(g->box[0], strcmp(a[1], "%") ? a[1] : "", num(a[2]), atoi(a[3])); }
    else if(strcmp(a[0], "setit") == 0) Seti(a[1], g->iteration);
    else if(strcmp(a[0], "get") == 0) ev("get %s=%s", a[1], GetsLax(a[1]) ? GetsLax(a[1]) : "~");
    else if(strcmp(a[0], "exit") == 0) exit(atoi(a[1]));
    else if(strcmp(a[0], "err") == 0) errorexit("told to");
    else if(strcmp(a[0], "abort") == 0) abort();
    else if(strcmp(a[0], "fun") == 0) addfun(a[1], a[2], "");
    else if(strcmp(a[0], "add") == 0)        /* add:var:number  to all points that have storage */
    {
      int b, i, v = Ind(a[1]);
      for(b = 0; b < g->nboxes; b++) if(g->box[b]->v[v]) for(i = 0; i < g->box[b]->nnodes; i++) g->box[b]->v[v][i] += num(a[2]);
    }
    else if(strcmp(a[0], "put") == 0)        /* put:var:box:point:number */
    { double *d = g->box[atoi(a[2])]->v[Ind(a[1])]; if(d) d[atoi(a[3])] = num(a[4]); }
    else if(strcmp(a[0], "on") == 0) enablevar(g, Ind(a[1]));
    else if(strcmp(a[0], "off") == 0) disablevar(g, Ind(a[1]));
    else if(strcmp(a[0], "show") == 0)       /* show:var  value at the first and last point of every box */
    {
      int b, v = Ind(a[1]); char s[2000]; int m = 0;
      for(b = 0; b < g->nboxes; b++)
      {
        double *d = g->box[b]->v[v];
        if(!d) m += sprintf(s + m, " ~"); else m += sprintf(s + m, " %s,%s", dstr(d[0]), dstr(d[g->box[b]->nnodes - 1]));
      }
      ev("show %s%s", a[1], s);
    }
    else if(strcmp(a[0], "hash") == 0)       /* hash:var,var  */
    {
      tVarList *vl = vlalloc(g); char *v, *s3;
      for(v = strtok_r(a[1], ",", &s3); v; v = strtok_r(NULL, ",", &s3)) vlpush(vl, Ind(v));
      ev("hash %d %016llx", g->iteration, hashgrid(g, vl)); vlfree(vl);
    }
    else if(strcmp(a[0], "mark") == 0)       /* mark:name:text  file in outdir */
    {
      char p[4000]; FILE *f; snprintf(p, sizeof p, "%s/%s", Gets("outdir"), a[1]);
      f = fopen(p, "a"); if(f) { fprintf(f, "%s;", a[2]); fclose(f); } else ev("nomark");
    }
    else if(strcmp(a[0], "log") == 0)        /* log:name   who writes and when, in a file in outdir */
    {
      char p[4000]; FILE *f; snprintf(p, sizeof p, "%s/%s", Gets("outdir"), a[1]);
      f = fopen(p, "a"); if(f) { fprintf(f, "%s.%d;", Gets("verif_p"), g->iteration); fclose(f); } else ev("nolog");
    }
    else ev("!act:%s", a[0]);
  }
}
static int call(int k, tGrid *g)
{
  win_start = 0;
  if(!quiet)
  {
    if(g) ev("%s %s %d %s", phasename[fun[k].phase], fun[k].name, g->iteration, dstr(g->time));
    else ev("%s %s", phasename[fun[k].phase], fun[k].name);
  }
  fun[k].ncall++;
  if(fun[k].act[0]) act(g, fun[k].act, fun[k].ncall);
  return 0;
}
static int winopen(tGrid *g) { win_it = g->iteration; return 0; }
static int winclose(tGrid *g) { win_it = -1; return 0; }
#define FN(k) static int f##k(tGrid *g) { return call(k, g); }
#define T8(X,p) X(p##0) X(p##1) X(p##2) X(p##3) X(p##4) X(p##5) X(p##6) X(p##7)
T8(FN,1) T8(FN,2) T8(FN,3) T8(FN,4) T8(FN,5) T8(FN,6) T8(FN,7)
#define FE(k) f##k,
static int (*ftab[])(tGrid *) = { T8(FE,1) T8(FE,2) T8(FE,3) T8(FE,4) T8(FE,5) T8(FE,6) T8(FE,7) };
static int fslot[] = { 10,11,12,13,14,15,16,17, 20,21,22,23,24,25,26,27, 30,31,32,33,34,35,36,37, 40,41,42,43,44,45,46,47, 50,51,52,53,54,55,56,57, 60,61,62,63,64,65,66,67, 70,71,72,73,74,75,76,77 };

/* evolution: du/dt of verif variables */
static void rhs(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
{
  tGrid *g = ucur->grid; int b, i, j;
  for(b = 0; b < g->nboxes; b++)
    for(j = 0; j < ucur->n; j++)
    {
      double *n = g->box[b]->v[unew->index[j]], *p = g->box[b]->v[upre->index[j]], *u = g->box[b]->v[ucur->index[j]];
      for(i = 0; i < g->box[b]->nnodes; i++)
      {
        double f;
        if(rhsmode == 1) f = 1 + j;                                               /* exact numbers */
        else f = sin(u[i] * (1.0 + 0.1 * j) + g->time * 0.37 + i * 0.01 + b) - 0.3 * u[i];
        n[i] = (c == 0) ? f : p[i] + c * f;
      }
    }
}
static void algeb(tVarList *unew, tVarList *upre) { (void)unew; (void)upre; }
static int init_data(tGrid *g)
{
  char *list, *t, *sp; tVarList *vl; int b, i, j;
  list = strdup(Gets("verif_evolve")); vl = vlalloc(g);
  for(t = strtok_r(list, " ", &sp); t; t = strtok_r(NULL, " ", &sp)) vlpush(vl, Ind(t));
  enablevarlist(vl);
  for(b = 0; b < g->nboxes; b++) for(j = 0; j < vl->n; j++) for(i = 0; i < g->box[b]->nnodes; i++)
    g->box[b]->v[vl->index[j]][i] = rhsmode == 1 ? 100 * b + 10 * j + i : 1.0 / (3 + i + 7 * b + 11 * j);
  evolve_vlregister(vl); evolve_rhsregister(rhs);
  if(Getv("verif_algebraic", "yes")) evolve_algebraicConditionsregister(algeb);
  free(list);
  return 0;
}
static int addfun(char *phase, char *name, const char *a)
{
  int p, k;
  for(p = 0; p < NFUNCTIONS; p++) if(strcmp(phasename[p], phase) == 0) break;
  if(nfun >= 56 || p == NFUNCTIONS) { ev("!funs %s", phase); return -1; }
  k = fslot[nfun];
  fun[k].phase = p; fun[k].ncall = 0; snprintf(fun[k].name, 32, "%s", name); snprintf(fun[k].act, 600, "%s", a);
  AddFun(p, ftab[nfun], name); nfun++;
  return 0;
}
static int phys_init(void)
{
  static int again = 0;      /* functions stay when the program goes on with another line of arguments */
  char *t, *sp, *l;
  AddPar("verif_funs", "", "functions: PHASE/name/actions");
  AddPar("verif_vars", "", "variables to declare: name/indices");
  AddPar("verif_evolve", "", "variables to evolve");
  AddPar("verif_rhs", "0", "kind of right hand side");
  AddPar("verif_algebraic", "no", "");
  AddPar("verif_p", "0", "some parameter"); AddPar("verif_q", "q0", "some parameter"); AddPar("verif_r", "r0", "some parameter");
  AddPar("verif_quiet", "no", "report only actions");
  quiet = Getv("verif_quiet", "yes"); rhsmode = Geti("verif_rhs");
  l = strdup(Gets("verif_vars"));
  for(t = strtok_r(l, " ", &sp); t; t = strtok_r(NULL, " ", &sp))
  { char *q = strchr(t, '/'); if(*t == '!') { if(q) *q = 0; AddConstantVar(t + 1, q ? q + 1 : "", "verif"); } else if(q) { *q = 0; AddVar(t, q + 1, "verif"); } else AddVar(t, "", "verif"); }
  free(l);
  AddFun(PRE_EVOLVE, winclose, "verif"); AddFun(PRE_FINALIZE_GRID, winclose, "verif");
  if(strlen(Gets("verif_evolve"))) AddFun(INITIALDATA, init_data, "verif");
  l = strdup(Gets("verif_funs"));
  for(t = strtok_r(l, " ", &sp); t; t = strtok_r(NULL, " ", &sp))
  {
    char *a = strchr(t, '/'), *b;
    if(!a) { ev("!funs"); continue; }
    *a++ = 0; b = strchr(a, '/'); if(b) *b++ = 0;
    if(!again) addfun(t, a, b ? b : "");
  }
  again = 1;
  AddFun(POST_OUTPUT, winopen, "verif");
  free(l);
  return 0;
}

/* ------------------------------------------------------------------ commands */
static int rmone(const char *p, const struct stat *s, int t, struct FTW *f) { (void)s; (void)t; (void)f;
#ifndef __SANITIZE_ADDRESS__
  { REAL(remove); return real(p); }
#else
  return remove(p);
#endif
}
static int rmtree(const char *a) { return nftw(a, rmone, 20, FTW_DEPTH | FTW_PHYS); }
static void c_sandbox(int c, char **v)
{
  char cwd[3900];
  if(!getcwd(cwd, sizeof cwd)) _exit(97);
  snprintf(SB, sizeof SB, "%s/sb", cwd); snprintf(evpath, sizeof evpath, "%s/events", cwd);
  rmtree(SB);
  if(mkdir(SB, 0777) || chdir(SB)) _exit(97);
  res("ok");
}
static void c_mkfile(int c, char **v)
{
  FILE *f = fopen(v[1], "w"); if(!f) { res("no"); return; }
  fputs(v[2], f); fclose(f); res("ok");
}
static void c_mkdirp(int c, char **v)
{
  char b[4000], *s; snprintf(b, sizeof b, "%s", v[1]);
  for(s = b + 1; *s; s++) if(*s == '/') { *s = 0; mkdir(b, 0777); *s = '/'; }
  mkdir(b, 0777); res("ok");
}
static void c_rmtree(int c, char **v) { rmtree(v[1]); res("ok"); }
static void c_mv(int c, char **v) { res("%d", rename(v[1], v[2])); }
static void c_symlink(int c, char **v)
{
  char b[8000]; snprintf(b, sizeof b, "%s%s", strncmp(v[1], "@SB@", 4) == 0 ? SB : v[1], strncmp(v[1], "@SB@", 4) == 0 ? v[1] + 4 : "");
  if(strncmp(v[1], "@SB@", 4) != 0) snprintf(b, sizeof b, "%s", v[1]);
  res("%d", symlink(b, v[2]));
}
static void c_cat(int c, char **v)
{
  char *b = calloc(1, 1 << 20); FILE *f = fopen(v[1], "rb"); size_t n;
  if(!f) { res("~"); return; }
  n = fread(b, 1, (1 << 20) - 1, f); b[n] = 0; fclose(f); res_str(b); free(b);
}
/* append, cut or overwrite: damage path how arg */
static void c_damage(int c, char **v)
{
  if(strcmp(v[2], "cut") == 0) res("%d", truncate(v[1], atol(v[3])));
  else if(strcmp(v[2], "chop") == 0) { struct stat t; res("%d", stat(v[1], &t) ? -1 : truncate(v[1], t.st_size - atol(v[3]))); }
  else if(strcmp(v[2], "append") == 0) { FILE *f = fopen(v[1], "a"); fputs(v[3], f); fclose(f); res("ok"); }
  else if(strcmp(v[2], "subst") == 0)
  { /* replace the first occurrence of v[3] by v[4] */
    FILE *f = fopen(v[1], "rb"); char *b = malloc(1 << 22), *p = NULL; size_t n, k, l = strlen(v[3]);
    if(!f) { res("no"); return; }
    n = fread(b, 1, 1 << 22, f); fclose(f);
    for(k = 0; k + l <= n; k++) if(memcmp(b + k, v[3], l) == 0) { p = b + k; break; }
    if(!p) { res("none"); free(b); return; }
    f = fopen(v[1], "wb"); fwrite(b, 1, p - b, f); fputs(v[4], f); fwrite(p + l, 1, b + n - p - l, f); fclose(f); free(b);
    res("ok");
  }
}
/* a checkpoint file as we read it ourselves: iteration, and whether it is complete */
static void ckinfo(FILE *o, const char *p)
{
  static char b[1 << 22]; FILE *f = fopen(p, "rb"); size_t n; int it = -1; char *s; size_t pos; int nv = 0, bad = 0;
  if(!f) { fprintf(o, "~"); return; }
  n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f);
  s = strstr(b, "$iteration = "); if(s) it = atoi(s + 13);
  s = strstr(b, "$BEGIN_variables:");
  if(s)
  {
    pos = s - b + strlen("$BEGIN_variables:\n");
    while(pos < n && strncmp(b + pos, "$variable", 9) == 0)
    {
      char *nn = strstr(b + pos, "box->nnodes = "); char *e = strchr(b + pos, '\n');
      if(!nn || !e || nn > e) { bad = 1; break; }
      pos = (e - b) + 1 + 8 * atol(nn + 14) + 1; nv++;
    }
    if(pos > n || strncmp(b + pos, "$END_variables", 14) != 0) bad = 1;
  }
  else bad = 1;
  fprintf(o, "ck(%d,%s)", it, bad ? "partial" : "complete");
}
static void walk(FILE *o, const char *dir, int *first)
{
  DIR *d = opendir(dir); struct dirent *e; char *names[4000]; int n = 0, i;
  if(!d) return;
  while((e = readdir(d)) && n < 4000) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names[n++] = strdup(e->d_name);
  closedir(d); 
  { int a, b2; for(a = 1; a < n; a++) for(b2 = a; b2 > 0 && strcmp(names[b2-1], names[b2]) > 0; b2--) { char *t = names[b2]; names[b2] = names[b2-1]; names[b2-1] = t; } }
  for(i = 0; i < n; i++)
  {
    char p[8000]; struct stat st; const char *q;
    if(strcmp(dir, ".") == 0) snprintf(p, sizeof p, "%s", names[i]); else snprintf(p, sizeof p, "%s/%s", dir, names[i]);
    lstat(p, &st); q = p;
    if(!*first) fprintf(o, " "); *first = 0;
    if(S_ISLNK(st.st_mode)) { fprintf(o, "%s@", q); continue; }
    if(S_ISDIR(st.st_mode)) { fprintf(o, "%s/", q); walk(o, p, first); continue; }
    fprintf(o, "%s=", q);
    if(strncmp(names[i], "checkpoint.", 11) == 0) ckinfo(o, p);
    else if(st.st_size <= 400)
    {
      char c[500]; FILE *f = fopen(p, "rb"); size_t k = f ? fread(c, 1, 400, f) : 0; FILE *so = drv_out; c[k] = 0;
      if(f) fclose(f);
      drv_out = o; res_str(c); drv_out = so;
    }
    else
    {
      FILE *f = fopen(p, "rb"); unsigned long long h = 1469598103934665603ULL; int ch;
      while(f && (ch = fgetc(f)) != EOF) { h ^= ch; h *= 1099511628211ULL; }
      if(f) fclose(f); fprintf(o, "#%ld.%08llx", (long)st.st_size, h & 0xffffffff);
    }
    free(names[i]);
  }
}
static void c_tree(int c, char **v) { int first = 1; walk(drv_out, c > 1 ? v[1] : ".", &first); if(first) res("%%"); }
static void hexwalk(const char *dir, const char *pre)
{
  DIR *d = opendir(dir); struct dirent *e; char p[8000], r[8000]; struct stat st;
  if(!d) { res("~"); return; }
  while((e = readdir(d)))
  {
    if(strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0) continue;
    snprintf(p, sizeof p, "%s/%s", dir, e->d_name); snprintf(r, sizeof r, "%s%s%s", pre, *pre ? "/" : "", e->d_name);
    if(lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) hexwalk(p, r);
    else { FILE *f = fopen(p, "rb"); int c; fprintf(drv_out, " %s:", r); while(f && (c = fgetc(f)) != EOF) fprintf(drv_out, "%02x", c); if(f) fclose(f); }
  }
  closedir(d);
}
static void c_hexdir(int c, char **v) { hexwalk(v[1], ""); }
static void c_ckinfo(int c, char **v) { ckinfo(drv_out, v[1]); }

static void c_run(int c, char **v)
{
  pid_t pid; int st, pp[2]; char *a[MAXARG]; int n = 0, i;
  memset(&F, 0, sizeof F);
  if(strcmp(v[1], "-") != 0)
  {
    char *t = strtok(v[1], ","); snprintf(F.kind, 8, "%s", t);
    t = strtok(NULL, ","); for(i = 0; i <= NOP; i++) if(strcmp(opname[i], t) == 0) F.op = i;
    F.nr = atoi(strtok(NULL, ",")); t = strtok(NULL, ",");
    F.it = !t ? -1 : strcmp(t, "start") == 0 ? -2 : atoi(t); F.on = 1;
  }
  else F.it = -1;
  a[n++] = "sgrid";
  for(i = 2; i < c; i++)
  { /* @SB@ stands for the scratch directory */
    char *p = strstr(v[i], "@SB@");
    if(p) { char *x = malloc(strlen(v[i]) + strlen(SB) + 1); sprintf(x, "%.*s%s%s", (int)(p - v[i]), v[i], SB, p + 4); a[n++] = x; }
    else a[n++] = v[i];
  }
  a[n] = NULL;
  fflush(drv_out);
  unlink(evpath); evfd = open(evpath, O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0666);
  pid = fork();
  if(pid == 0)
  {
    int of = getenv("VERIF_RUN_STDOUT") ? open(getenv("VERIF_RUN_STDOUT"), O_WRONLY | O_CREAT | O_APPEND, 0666) : -1;
    char so[4300]; int sf; snprintf(so, sizeof so, "%s.out", evpath);
    sf = of >= 0 ? of : open(so, O_WRONLY | O_CREAT | O_TRUNC, 0666);
    dup2(sf, 1); dup2(sf, 2);
    verif_init_hook = phys_init; inrun = 1; nfun = 0; win_it = -1; win_start = 1;
    fclose(drv_out); 
    st = libsgrid_main(n, a);
    exit(st);
  }
  waitpid(pid, &st, 0);
  close(evfd); evfd = -1;
  if(WIFSIGNALED(st)) res("sig %d", WTERMSIG(st)); else res("exit %d", WEXITSTATUS(st));
  { /* events, joined */
    FILE *f = fopen(evpath, "r"); static char line[8000];
    while(f && fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; res(";%s", line); }
    if(f) fclose(f);
  }
}
/* what the last run said on stdout/stderr: said text -> number of lines with it */
static void c_said(int c, char **v)
{
  char so[4300], line[20000]; int n = 0; FILE *f; snprintf(so, sizeof so, "%s.out", evpath);
  f = fopen(so, "r"); while(f && fgets(line, sizeof line, f)) if(strstr(line, v[1])) n++;
  if(f) fclose(f); res("%d", n);
}
static void c_runout(int c, char **v)
{
  char so[4300]; char *a[2]; snprintf(so, sizeof so, "%s.out", evpath); a[1] = so; c_cat(2, a);
}
void drv_run_init(void)
{
  drv_register("sandbox", c_sandbox); drv_register("mkfile", c_mkfile); drv_register("mkdirp", c_mkdirp);
  drv_register("rmtree", c_rmtree); drv_register("mv", c_mv); drv_register("symlink", c_symlink);
  drv_register("cat", c_cat); drv_register("damage", c_damage); drv_register("tree", c_tree); drv_register("ckinfo", c_ckinfo);
  drv_register("hexdir", c_hexdir); drv_register("run", c_run); drv_register("said", c_said); drv_register("runout", c_runout);
  (void)die;
}
