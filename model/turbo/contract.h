/* contract of TurboSHAKE (TurboSHAKE.h) for the functions built on it */
#include <string.h>
#include "TurboSHAKE.h"
#include "xk.h"
extern int g_failed;
typedef TurboSHAKE_Instance SP;
void mon_init(SP *s, unsigned int rate, unsigned int capacity);
void mon_absorb(SP *s, const unsigned char *data, size_t n);
void mon_suffix(SP *s, unsigned char d);
void mon_squeeze(SP *s, unsigned char *data, size_t n);
unsigned int mon_index(SP *s);
