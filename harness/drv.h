/* drv.h: command interpreter used to replay specification behaviours on sgrid */
#ifndef DRV_H
#define DRV_H
#include "sgrid.h"
#include <stdarg.h>

#define MAXARG 4096
typedef void (*drv_fun)(int argc, char **argv);
void drv_register(const char *name, drv_fun f);

/* result printing: every command yields exactly one line */
void res(const char *fmt, ...);          /* append to result line */
void res_str(const char *s);             /* append %-encoded string, ~ for NULL */
void res_dbl(double x);                  /* append exact (shortest round trip) double */
double num(const char *s);               /* parse double, accepts nan inf */
char *dec(char *s);                      /* decode %XX in place, ~ -> NULL */
extern FILE *drv_out;

void drv_par_init(void);
void drv_mem_init(void);
void drv_sto_init(void);
void drv_pts_init(void);
void drv_bf_init(void);
void res_pl(tPointList *p, int nb);
int ints(char *s, int *a);
void res_ints(int *a, int n);
void drv_run_init(void);
void drv_num_init(void);
void drv_grid_init(void);
void drv_bc_init(void);
void drv_la_init(void);
#endif
