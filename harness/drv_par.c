/* drv_par.c: parameter data base commands */
#include "drv.h"
void parse_parameter_file(char *parfile);
int iterate_parameters(int next);
int construct_argv(char *str, char ***argv);
int findparameterindex(char *name, int fatal);
int read_command_line(int argc, char **argv);
int parse_command_line_options(void);
void setparameter(char *name, char *value);
void free_global_parameter_database(void);

static tParameter *copies[16]; static int ncopies[16];

static void c_parfile(int c, char **v)   /* content -> file, parse it */
{
  char fn[] = "/tmp/verif_parXXXXXX"; int fd = mkstemp(fn); FILE *fp = fdopen(fd, "w");
  fwrite(v[1], 1, strlen(v[1]), fp); fclose(fp);
  parse_parameter_file(fn); remove(fn);
  res("ok");
}
static void c_dump(int c, char **v)      /* all name value pairs in order */
{
  int i;
  for(i = 0; i < GetnParameters(); i++)
  { if(i) res(" "); res_str(GetnameInd(i)); res("="); res_str(GetsInd(i)); }
}
static void c_reset(int c, char **v) { free_global_parameter_database_contents(); res("ok"); }
static void c_addpar(int c, char **v) { AddPar(v[1], v[2], v[3]); res("ok"); }
static void c_addmod(int c, char **v) { AddOrModifyPar(v[1], v[2], v[3]); res("ok"); }
static void c_sets(int c, char **v) { Sets(v[1], v[2]); res("ok"); }
static void c_setself(int c, char **v) { Sets(v[1], Gets(v[2])); res("ok"); }
static void c_seti(int c, char **v) { Seti(v[1], atoi(v[2])); res("ok"); }
static void c_setd(int c, char **v) { Setd(v[1], num(v[2])); res("ok"); }
static void c_appends(int c, char **v) { Appends(v[1], v[2]); res("ok"); }
static void c_gets(int c, char **v) { res_str(Gets(v[1])); }
static void c_getslax(int c, char **v) { res_str(GetsLax(v[1])); }
static void c_geti(int c, char **v) { res("%d", Geti(v[1])); }
static void c_getd(int c, char **v) { res_dbl(Getd(v[1])); }
static void c_getv(int c, char **v) { res("%d", Getv(v[1], v[2])); }
static void c_getvlax(int c, char **v) { res("%d", GetvLax(v[1], v[2])); }
static void c_cached(int c, char **v)
{ int i = GetParIndex(v[1]); res_dbl(GetCachedNumValByParIndex(i)); res(" %d", GetCachedBoolValByParIndex(i)); }
static void c_index(int c, char **v) { res("%d", findparameterindex(v[1], 0)); }
static void c_istart(int c, char **v) { Set_pdb_iStart_AtPar(v[1]); res("ok"); }
static void c_next(int c, char **v) { res_str(NextEntry(v[1])); }
static void c_nextpar(int c, char **v) { res_str(NextEntry(Gets(v[1]))); }
static void c_words(int c, char **v)     /* full iteration over a value */
{ char *s; int n = 0; char *l = strdup(v[1]); NextEntry(NULL);
  while((s = NextEntry(l))) { if(n++) res(" "); res_str(s); } if(!n) res("-"); }
static void c_descr(int c, char **v)
{ int i = GetParIndex(v[1]); res_str(GetPointerTo_pbd()[i].description); }
static void c_mkcopy(int c, char **v)
{ int k = atoi(v[1]); ncopies[k] = GetnParameters();
  create_copy_of_pdb1_in_pdb2(GetPointerTo_pbd(), ncopies[k], 10000, &copies[k]); res("ok"); }
static void c_cpcopy(int c, char **v)    /* copy pdb into (possibly fresh) copy k with copy_pdb */
{ int k = atoi(v[1]); if(!copies[k]) copies[k] = make_empty_pdb(10000);
  ncopies[k] = GetnParameters(); copy_pdb(GetPointerTo_pbd(), ncopies[k], copies[k]); res("ok"); }
static void c_restore(int c, char **v)   /* copy back into the global data base */
{ int k = atoi(v[1]); copy_pdb(copies[k], ncopies[k], GetPointerTo_pbd()); res("ok"); }
static void c_dumpcopy(int c, char **v)
{ int i, k = atoi(v[1]);
  for(i = 0; i < ncopies[k]; i++)
  { if(i) res(" "); res_str(copies[k][i].name); res("="); res_str(copies[k][i].value);
    res(":"); res_str(copies[k][i].description); res(":"); res_dbl(copies[k][i].numericalvalue);
    res(":%d", copies[k][i].booleanvalue); } }
static void c_freecopy(int c, char **v)
{ int k = atoi(v[1]); free_pdb(copies[k], ncopies[k]); copies[k] = NULL; res("ok"); }
static void c_full(int c, char **v)      /* name=value:descr:num:bool for all */
{ int i; tParameter *p = GetPointerTo_pbd();
  for(i = 0; i < GetnParameters(); i++)
  { if(i) res(" "); res_str(p[i].name); res("="); res_str(p[i].value); res(":"); res_str(p[i].description);
    res(":"); res_dbl(p[i].numericalvalue); res(":%d", p[i].booleanvalue); }
  if(!GetnParameters()) res("-"); }
static void c_manypars(int c, char **v)  /* add n numbered parameters, check all */
{ int i, n = atoi(v[1]), bad = 0; char nm[50], val[50];
  for(i = 0; i < n; i++) { sprintf(nm, "many%d", i); sprintf(val, "v%d", i); makeparameter(nm, val, "d"); }
  for(i = 0; i < n; i++) { char *s; sprintf(nm, "many%d", i); sprintf(val, "v%d", i); s = GetsLax(nm); if(!s || strcmp(s, val)) bad++; }
  res("%d %d", GetnParameters(), bad); }
static void c_argv(int c, char **v)
{ char **a; int i, n = construct_argv(v[1], &a); res("%d", n); for(i = 0; i < n; i++) { res(" "); res_str(a[i]); } }
static void c_cmdline(int c, char **v)   /* read_command_line + options */
{ read_command_line(c, v); parse_command_line_options(); res("ok"); }
static void c_readcmdline(int c, char **v) { read_command_line(c, v); res("ok"); }
static void c_opts(int c, char **v) { parse_command_line_options(); res("ok"); }
static void c_get_par_from_str(int c, char **v)
{ char n[1000] = "", val[1000] = ""; int r = get_par_from_str(v[1], n, v[2], val, 999); res("%d", r); if(r) { res(" "); res_str(n); res(" "); res_str(val); } }

void drv_par_init(void)
{
  drv_register("parfile", c_parfile); drv_register("dump", c_dump); drv_register("reset", c_reset);
  drv_register("addpar", c_addpar); drv_register("addmod", c_addmod); drv_register("sets", c_sets);
  drv_register("setself", c_setself); drv_register("seti", c_seti); drv_register("setd", c_setd);
  drv_register("appends", c_appends); drv_register("gets", c_gets); drv_register("getslax", c_getslax);
  drv_register("geti", c_geti); drv_register("getd", c_getd); drv_register("getv", c_getv);
  drv_register("getvlax", c_getvlax); drv_register("cached", c_cached); drv_register("index", c_index);
  drv_register("istart", c_istart); drv_register("next", c_next); drv_register("nextpar", c_nextpar);
  drv_register("words", c_words); drv_register("descr", c_descr); drv_register("mkcopy", c_mkcopy);
  drv_register("cpcopy", c_cpcopy); drv_register("restore", c_restore); drv_register("dumpcopy", c_dumpcopy);
  drv_register("freecopy", c_freecopy); drv_register("full", c_full); drv_register("manypars", c_manypars);
  drv_register("argv", c_argv); drv_register("cmdline", c_cmdline); drv_register("readcmdline", c_readcmdline);
  drv_register("opts", c_opts); drv_register("getparstr", c_get_par_from_str);
}
