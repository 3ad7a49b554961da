/* What KeccakSponge.inc guarantees (established by the unit "sponge"): refusal without effect
   when out of phase, positions modulo the rate. With MODEL_FAIL any call may also fail. */
#include "contract.h"
int g_failed;
#ifdef MODEL_FAIL
#define MAYFAIL() do { if (xk_choice(2)) { g_failed = 1; return 1; } } while (0)
#define MON(x)
#else
#define MAYFAIL()
#define MON(x) x
#endif
int KeccakWidth1600_SpongeInitialize(SP *s, unsigned int rate, unsigned int capacity) {
    MAYFAIL();
    if (rate == 0 || rate > 1600 || rate % 8 != 0 || capacity != 1600 - rate) return 1;
    MON(mon_init(s, rate, capacity));
    s->rate = rate; s->byteIOIndex = 0; s->squeezing = 0;
    s->state.pos = 0; s->state.ph = 0;
    return 0;
}
int KeccakWidth1600_SpongeAbsorb(SP *s, const unsigned char *data, size_t n) {
    xk_read(data, n);
    MAYFAIL();
    if (s->squeezing) return 1;
    MON(mon_absorb(s, data, n));
#ifndef NOPOS
    { size_t t = s->byteIOIndex + n; unsigned int r = s->rate / 8; s->byteIOIndex = (unsigned int)(t % r); }
    s->state.pos = s->byteIOIndex;
#endif
    return 0;
}
int KeccakWidth1600_SpongeAbsorbLastFewBits(SP *s, unsigned char d) {
    MAYFAIL();
    if (d == 0 || s->squeezing) return 1;
    MON(mon_suffix(s, d));
    s->squeezing = 1; s->byteIOIndex = 0; s->state.pos = 0;
    return 0;
}
int KeccakWidth1600_SpongeSqueeze(SP *s, unsigned char *data, size_t n) {
    xk_write(data, n);
    MAYFAIL();
    if (!s->squeezing) { MON(mon_suffix(s, 1)); s->squeezing = 1; }
    MON(mon_squeeze(s, data, n));
    return 0;
}
int KeccakWidth1600_Sponge(unsigned int rate, unsigned int capacity, const unsigned char *input, size_t n, unsigned char suffix, unsigned char *output, size_t m) {
    SP s;
#ifdef MODEL_FAIL
    xk_read(input, n); xk_write(output, m);
    MAYFAIL();
    return 0;
#else
    if (KeccakWidth1600_SpongeInitialize(&s, rate, capacity)) return 1;
    if (suffix == 0) return 1;
    if (KeccakWidth1600_SpongeAbsorb(&s, input, n)) return 1;
    if (KeccakWidth1600_SpongeAbsorbLastFewBits(&s, suffix)) return 1;
    return KeccakWidth1600_SpongeSqueeze(&s, output, m);
#endif
}
