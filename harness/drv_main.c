/* drv_main.c: protocol
     driver SCRIPT OUT [timeout_s]      replay behaviours
   SCRIPT:  lines  "B"            start of a behaviour (a forked process runs it)
                   "<cmd> args"   one command, args %-encoded
                   "E"            end of behaviour
   OUT:     one line per command executed, then "#E exit <n>" or "#E sig <n>"
*/
#include "drv.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>

#define NCMD 400
static struct { const char *name; drv_fun f; } cmds[NCMD];
static int ncmds = 0;
FILE *drv_out;
int libsgrid_main(int argc, char **argv);

void drv_register(const char *name, drv_fun f)
{
  if(ncmds >= NCMD) { fprintf(stderr, "too many commands\n"); exit(99); }
  cmds[ncmds].name = name; cmds[ncmds++].f = f;
}

void res(const char *fmt, ...)
{
  va_list ap; va_start(ap, fmt); vfprintf(drv_out, fmt, ap); va_end(ap);
}
void res_str(const char *s)
{
  if(!s) { fputc('~', drv_out); return; }
  if(!*s) { fputc('%', drv_out); return; }
  for(; *s; s++)
  {
    unsigned char c = *s;
    if(c <= ' ' || c == '%' || c == '~' || c >= 127) fprintf(drv_out, "%%%02X", c);
    else fputc(c, drv_out);
  }
}
void res_dbl(double x)
{
  if(x != x) { res("nan"); return; }
  if(x > DBL_MAX) { res("inf"); return; }
  if(x < -DBL_MAX) { res("-inf"); return; }
  if(x == (long long)x && fabs(x) < 1e15) { res("%lld", (long long)x); return; }
  res("%.17g", x);
}
double num(const char *s) { return strtod(s, NULL); }
static int hexv(int c) { return c <= '9' ? c - '0' : (c & 15) + 9; }
char *dec(char *s)
{
  char *r = s, *w = s;
  if(strcmp(s, "~") == 0) return NULL;
  if(strcmp(s, "%") == 0) { *s = 0; return s; }
  for(; *r; r++)
    if(*r == '%' && r[1] && r[2]) { *w++ = hexv(r[1]) * 16 + hexv(r[2]); r += 2; }
    else *w++ = *r;
  *w = 0;
  return s;
}

static void docmd(char *line)
{
  char *argv[MAXARG]; int argc = 0; char *sp, *t; int i;
  for(t = strtok_r(line, " ", &sp); t && argc < MAXARG - 1; t = strtok_r(NULL, " ", &sp)) argv[argc++] = t;
  argv[argc] = NULL;
  if(!argc) return;
  for(i = 0; i < ncmds; i++)
    if(strcmp(cmds[i].name, argv[0]) == 0)
    {
      int j;
      for(j = 1; j < argc; j++) argv[j] = dec(argv[j]);
      cmds[i].f(argc, argv);
      fputc('\n', drv_out);
      fflush(drv_out);
      return;
    }
  res("?unknown command %s\n", argv[0]); fflush(drv_out);
  _exit(99);
}

/* default parameters and variables as if a run had just read an empty file */
static int drv_dryrun(void) { return 0; }

int main(int argc, char **argv)
{
  char *line = NULL; size_t cap = 0; ssize_t n;
  FILE *in; int lim, devnull;
  drv_par_init(); drv_mem_init(); drv_sto_init(); drv_pts_init(); drv_bf_init(); drv_run_init(); drv_num_init(); drv_grid_init(); drv_la_init(); drv_bc_init();
  if(argc >= 3 && strcmp(argv[1], "--run") == 0)
  { /* whole program: driver --run <sgrid args> */
    argv[1] = "sgrid";
    return libsgrid_main(argc - 1, argv + 1);
  }
  if(argc < 3) { fprintf(stderr, "usage: driver SCRIPT OUT [timeout]\n"); return 98; }
  in = fopen(argv[1], "r"); drv_out = fopen(argv[2], "w");
  if(!in || !drv_out) { perror("driver"); return 98; }
  { /* slurp the script: a child's exit() would otherwise move the shared file offset */
    char *b = NULL; size_t bl = 0, k; static char tmp[65536]; FILE *m = open_memstream(&b, &bl);
    while((k = fread(tmp, 1, sizeof tmp, in)) > 0) fwrite(tmp, 1, k, m);
    fclose(m); fclose(in); in = fmemopen(b, bl ? bl : 1, "r");
  }
  lim = argc > 3 ? atoi(argv[3]) : 20;
  devnull = open("/dev/null", O_WRONLY);
  while((n = getline(&line, &cap, in)) >= 0)
  {
    long pos; pid_t pid; int st;
    if(n && line[n-1] == '\n') line[--n] = 0;
    if(strcmp(line, "B") != 0) continue;
    /* collect the behaviour in memory so that parent and child stay in step */
    char *buf = NULL; size_t blen = 0; FILE *mem = open_memstream(&buf, &blen);
    while((n = getline(&line, &cap, in)) >= 0)
    {
      if(n && line[n-1] == '\n') line[--n] = 0;
      if(strcmp(line, "E") == 0) break;
      fprintf(mem, "%s\n", line);
    }
    fclose(mem);
    fflush(drv_out);
    pid = fork();
    if(pid < 0) { perror("fork"); return 97; }
    if(pid == 0)
    {
      char *p = buf;
      if(!getenv("VERIF_DRV_STDOUT")) { dup2(devnull, 1); dup2(devnull, 2); }
      { struct rlimit rl; getrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl); }
      alarm(lim);
      while(*p)
      {
        char *e = strchr(p, '\n'); *e = 0;
        docmd(p);
        p = e + 1;
      }
      fflush(drv_out);
      _exit(0);
    }
    while(waitpid(pid, &st, 0) < 0) ;
    fseek(drv_out, 0, SEEK_END);
    if(WIFSIGNALED(st)) fprintf(drv_out, "\n#E sig %d\n", WTERMSIG(st));
    else                fprintf(drv_out, "\n#E exit %d\n", WEXITSTATUS(st));
    fflush(drv_out);
    free(buf);
  }
  fprintf(drv_out, "#DONE\n"); fclose(drv_out);
  return 0;
}
