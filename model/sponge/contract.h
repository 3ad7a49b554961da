/* contract of the sponge layer (KeccakSponge.h) for the functions built on it */
#include <string.h>
#include "KeccakSponge.h"
#include "xk.h"
extern int g_failed;                        /* an inner call reported failure */
typedef KeccakWidth1600_SpongeInstance SP;
/* monitor hooks, defined by the client */
void mon_init(SP *s, unsigned int rate, unsigned int capacity);
void mon_absorb(SP *s, const unsigned char *data, size_t n);
void mon_suffix(SP *s, unsigned char d);
void mon_squeeze(SP *s, unsigned char *data, size_t n);
