/* most general client of a TurboSHAKE object */
#include <string.h>
#include "ghost.h"
#include "TurboSHAKE.h"
void client(void) {
    TurboSHAKE_Instance inst;
    unsigned int cap = xk_range32(0, 0xffffffffu);
    int r, valid = xk_choice(2);
    if (valid) cap = 8 * xk_range32(0, 64);
    g_rounds = 12;
    g_rate = (1600 - cap) / 8;
    xk_watch(&inst);
    r = TurboSHAKE_Initialize(&inst, cap);
    if (r != 0) {
        xk_assert(!valid, "P06:TurboSHAKE: valid capacity accepted");
        xk_assert(xk_untouched(&inst), "P06:TurboSHAKE: refused initialization has no effect");
        return;
    }
    xk_assert(cap <= 512, "P06:TurboSHAKE: capacity beyond 512 refused");
    xk_assert(cap % 8 == 0, "P06:TurboSHAKE: capacity that is not a whole number of bytes refused");
    xk_assert(inst.state.ph == 0 && inst.state.pos == 0, "P01:initialization clears the state");
    while (1) {
        unsigned int ph = inst.state.ph;
        xk_watch(&inst);
        switch (xk_choice(4)) {
        case 0: {
            size_t n = xk_rangesz(0, XK_MAXLEN);
            const unsigned char *d = xk_in(n, "data");
            g_in = d; g_left = n; g_oleft = 0; g_suffix = 0;
            r = TurboSHAKE_Absorb(&inst, d, n);
            if (ph == 3) { xk_assert(r != 0, "P05:TurboSHAKE: input after squeezing is refused"); xk_assert(xk_untouched(&inst), "P05:TurboSHAKE: refused input has no effect"); }
            else { xk_assert(r == 0, "P06:TurboSHAKE: input while absorbing is accepted"); xk_assert(g_left == 0, "P01:every input byte is absorbed"); xk_reach("absorb"); }
            break; }
        case 1: {
            g_suffix = xk_range8(0, 255); g_left = 0; g_oleft = 0; g_in = 0;
            r = TurboSHAKE_AbsorbDomainSeparationByte(&inst, g_suffix);
            if (ph == 3) { xk_assert(r != 0, "P05:TurboSHAKE: domain byte after squeezing is refused"); xk_assert(xk_untouched(&inst), "P05:TurboSHAKE: refused domain byte has no effect"); }
            else if (g_suffix == 0) { xk_assert(r != 0, "P06:TurboSHAKE: zero domain byte is refused"); xk_assert(xk_untouched(&inst), "P06:TurboSHAKE: refused domain byte has no effect"); }
            else { xk_assert(r == 0, "P06:TurboSHAKE: non-zero domain byte is accepted"); xk_assert(inst.state.ph == 3, "P01:padding is completed"); xk_reach("domain"); }
            break; }
        case 2: {
            size_t n = xk_rangesz(0, XK_MAXLEN);
            unsigned char *d = xk_out(n, "output");
            g_out = d; g_oleft = n; g_left = 0; g_in = 0; g_suffix = 0x01;
            r = TurboSHAKE_Squeeze(&inst, d, n);
            xk_assert(r == 0, "P06:TurboSHAKE: squeezing succeeds");
            xk_assert(g_oleft == 0, "P01:every requested output byte is produced");
            xk_assert(inst.state.ph == 3, "P01:squeezing completes the padding");
            xk_reach("squeeze");
            break; }
        default: return;
        }
    }
}
void client_oneshot(void) {
    unsigned int cap = xk_range32(0, 0xffffffffu);
    size_t n = xk_rangesz(0, XK_MAXLEN), m = xk_rangesz(0, XK_MAXLEN);
    const unsigned char *in = xk_in(n, "input"); unsigned char *out = xk_out(m, "output");
    int r, valid = xk_choice(2);
    g_suffix = xk_range8(0, 255);
    if (valid) { cap = 8 * xk_range32(0, 64); g_suffix = xk_range8(1, 255); }
    g_rounds = 12; g_rate = (1600 - cap) / 8; g_in = in; g_left = n; g_out = out; g_oleft = m;
    xk_watch(out);
    r = TurboSHAKE(cap, in, n, g_suffix, out, m);
    if (r != 0) {
        xk_assert(!valid, "P06:TurboSHAKE: valid parameters accepted");
        xk_assert(xk_untouched(out), "P06:TurboSHAKE: refused call has no effect");
        return;
    }
    xk_assert(cap <= 512 && cap % 8 == 0, "P06:TurboSHAKE: invalid capacity refused");
    xk_assert(g_suffix != 0, "P06:TurboSHAKE: zero domain byte refused");
    xk_assert(g_left == 0, "P01:every input byte is absorbed");
    xk_assert(g_oleft == 0, "P01:every requested output byte is produced");
    xk_reach("oneshot");
}
