/* most general client of a sponge object: any parameters, then any sequence of calls */
#include <string.h>
#include "ghost.h"
#ifdef TURBO
#include "TurboSHAKE.h"
#define PFX TurboSHAKE
#define ROUNDS 12
#else
#include "KeccakSponge.h"
#define PFX KeccakWidth1600
#define ROUNDS 24
#endif
#define J0(a, b) a##b
#define J(a, b) J0(a, b)
#define Inst J(PFX, _SpongeInstance)

void client(void) {
    Inst inst;
    unsigned int rate = xk_range32(0, 0xffffffffu), cap = xk_range32(0, 0xffffffffu);
    int r, valid = xk_choice(2);
    if (valid) { rate = 8 * xk_range32(1, 200); cap = 1600 - rate; }
    g_rounds = ROUNDS;
    g_rate = rate / 8;
    xk_watch(&inst);
    r = J(PFX, _SpongeInitialize)(&inst, rate, cap);
    if (r != 0) {
        xk_assert(!valid, "P06:valid rate and capacity accepted");
        xk_assert(xk_untouched(&inst), "P06:refused initialization has no effect");
        return;
    }
    xk_assert(rate > 0, "P06:zero rate refused");
    xk_assert(rate <= 1600, "P06:excessive rate refused");
    xk_assert(rate % 8 == 0, "P06:rate that is not a whole number of bytes refused");
    xk_assert(cap == 1600 - rate, "P06:rate and capacity must add up to the width");
    xk_assert(inst.state.ph == 0 && inst.state.pos == 0, "P01:initialization clears the state");
    while (1) {
        unsigned int ph = inst.state.ph;
        xk_watch(&inst);
        switch (xk_choice(4)) {
        case 0: {
            size_t n = xk_rangesz(0, XK_MAXLEN);
            const unsigned char *d = xk_in(n, "data");
            g_in = d; g_left = n; g_oleft = 0;
            r = J(PFX, _SpongeAbsorb)(&inst, d, n);
            if (ph == 3) { xk_assert(r != 0, "P05:input after squeezing is refused"); xk_assert(xk_untouched(&inst), "P05:refused input has no effect"); }
            else { xk_assert(r == 0, "P05+P06:input before squeezing is accepted"); xk_assert(g_left == 0, "P01:every input byte is absorbed"); xk_assert(inst.state.ph == 0, "P01:absorbing does not change the phase"); xk_reach("absorb"); }
            break; }
        case 1: {
            g_suffix = xk_range8(0, 255); g_left = 0; g_oleft = 0; g_in = 0;
            r = J(PFX, _SpongeAbsorbLastFewBits)(&inst, g_suffix);
            if (ph == 3) { xk_assert(r != 0, "P05:suffix after squeezing is refused"); xk_assert(xk_untouched(&inst), "P05:refused suffix has no effect"); }
            else if (g_suffix == 0) { xk_assert(r != 0, "P06:zero suffix is refused"); xk_assert(xk_untouched(&inst), "P06:refused suffix has no effect"); }
            else { xk_assert(r == 0, "P06:non-zero suffix is accepted"); xk_assert(inst.state.ph == 3, "P01:padding is completed"); xk_reach("suffix"); }
            break; }
        case 2: {
            size_t n = xk_rangesz(0, XK_MAXLEN);
            unsigned char *d = xk_out(n, "output");
            g_out = d; g_oleft = n; g_left = 0; g_in = 0; g_suffix = 0x01;
            r = J(PFX, _SpongeSqueeze)(&inst, d, n);
            xk_assert(r == 0, "P06:squeezing succeeds");
            xk_assert(g_oleft == 0, "P01:every requested output byte is produced");
            xk_assert(inst.state.ph == 3, "P01:squeezing completes the padding");
            xk_reach("squeeze");
            break; }
        default: return;
        }
    }
}
void client_oneshot(void) {
    unsigned int rate = xk_range32(0, 0xffffffffu), cap = xk_range32(0, 0xffffffffu);
    size_t n = xk_rangesz(0, XK_MAXLEN), m = xk_rangesz(0, XK_MAXLEN);
    const unsigned char *in = xk_in(n, "input"); unsigned char *out = xk_out(m, "output");
    int r, valid = xk_choice(2);
    g_suffix = xk_range8(0, 255);
    if (valid) { rate = 8 * xk_range32(1, 200); cap = 1600 - rate; g_suffix = xk_range8(1, 255); }
    g_rounds = ROUNDS; g_rate = rate / 8; g_in = in; g_left = n; g_out = out; g_oleft = m;
    xk_watch(out);
    r = J(PFX, _Sponge)(rate, cap, in, n, g_suffix, out, m);
    if (r != 0) {
        xk_assert(!valid, "P06:valid parameters accepted");
        xk_assert(xk_untouched(out), "P06:refused call has no effect");
        return;
    }
    xk_assert(rate > 0 && rate <= 1600 && rate % 8 == 0 && cap == 1600 - rate, "P06:invalid rate or capacity refused");
    xk_assert(g_suffix != 0, "P06:zero suffix refused");
    xk_assert(g_left == 0, "P01:every input byte is absorbed");
    xk_assert(g_oleft == 0, "P01:every requested output byte is produced");
    xk_reach("oneshot");
}
