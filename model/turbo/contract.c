/* What TurboSHAKE.c guarantees (established by the unit "turboshake"). The caller may move byteIOIndex
   forward within the block, which leaves zeros. With MODEL_FAIL any call may also fail. */
#include "contract.h"
int g_failed;
#ifdef MODEL_FAIL
#define MAYFAIL() do { if (xk_choice(2)) { g_failed = 1; return 1; } } while (0)
#define MON(x)
#else
#define MAYFAIL()
#define MON(x) x
#endif
int TurboSHAKE_Initialize(SP *s, unsigned int capacity) {
    MAYFAIL();
    if (capacity > 512 || capacity % 8 != 0) return 1;
    MON(mon_init(s, 1600 - capacity, capacity));
    s->rate = 1600 - capacity; s->byteIOIndex = 0; s->squeezing = 0;
    s->state.pos = 0; s->state.ph = 0;
    return 0;
}
int TurboSHAKE_Absorb(SP *s, const unsigned char *data, size_t n) {
    xk_read(data, n);
    MAYFAIL();
    if (s->squeezing) return 1;
    MON(mon_absorb(s, data, n));
    s->byteIOIndex = mon_index(s);      /* bytes absorbed since initialization modulo the rate */
    s->state.pos = s->byteIOIndex;
    return 0;
}
int TurboSHAKE_AbsorbDomainSeparationByte(SP *s, unsigned char d) {
    MAYFAIL();
    if (d == 0 || s->squeezing) return 1;
    MON(mon_suffix(s, d));
    s->squeezing = 1; s->byteIOIndex = 0; s->state.pos = 0;
    return 0;
}
int TurboSHAKE_Squeeze(SP *s, unsigned char *data, size_t n) {
    xk_write(data, n);
    MAYFAIL();
    if (!s->squeezing) { MON(mon_suffix(s, 1)); s->squeezing = 1; }
    MON(mon_squeeze(s, data, n));
    return 0;
}
