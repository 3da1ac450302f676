/* sgrid_VerifPhys.c: calls back into the driver while modules are initialised */
#include "sgrid.h"
#include "VerifPhys.h"
int (*verif_init_hook)(void) = NULL;
int sgrid_VerifPhys(void)
{
  if(verif_init_hook) return verif_init_hook();
  return 0;
}
