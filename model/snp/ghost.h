/* ghost variables shared by the contract models and the clients */
#include "xk.h"
#include "KeccakP-1600-SnP.h"
extern unsigned int g_rate;             /* outer part (bytes) given to states initialised from now on */
extern unsigned int g_rounds;           /* rounds the current mode must use */
extern unsigned char g_suffix;          /* delimited suffix the caller asked for */
extern const unsigned char *g_in;       /* next byte of the caller's input to be absorbed */
extern size_t g_left;
extern unsigned char *g_out;            /* next byte of the caller's output to be produced */
extern size_t g_oleft;
extern const unsigned char *g_mask;     /* next byte of the input added to the output */
extern size_t g_mleft;
extern int g_case;                      /* case distinction kept by the analysis (constants in memory partition states) */
