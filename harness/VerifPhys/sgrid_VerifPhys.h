/* sgrid_VerifPhys.h: the physics module the verification driver adds to sgrid */
int sgrid_VerifPhys(void);
extern int (*verif_init_hook)(void);
