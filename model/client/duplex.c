/* most general client of a duplex object */
#include <string.h>
#include "ghost.h"
#include "KeccakDuplex.h"
#define F(x) KeccakWidth1600_##x
typedef KeccakWidth1600_DuplexInstance Inst;
#define QUIET do { g_case = 0; g_in = 0; g_left = 0; g_out = 0; g_oleft = 0; g_mask = 0; g_mleft = 0; } while (0)

void client(void) {
    Inst inst;
    unsigned int rate = xk_range32(0, 0xffffffffu), cap = xk_range32(0, 0xffffffffu);
    int r, valid = xk_choice(2);
    if (valid) { rate = xk_range32(3, 1600); cap = 1600 - rate; }
    g_rounds = 24; g_rate = rate; QUIET;
    xk_watch(&inst);
    r = F(DuplexInitialize)(&inst, rate, cap);
    if (r != 0) {
        xk_assert(!valid, "P06:valid rate and capacity accepted");
        xk_assert(xk_untouched(&inst), "P06:refused initialization has no effect");
        return;
    }
    xk_assert(rate >= 3 && rate <= 1600, "P06:rate outside 3..1600 refused");
    xk_assert(cap == 1600 - rate, "P06:rate and capacity must add up to the width");
    xk_assert(inst.state.ph == 0 && inst.state.pos == 0, "P01:initialization clears the state");
    while (1) {
        unsigned int pos = inst.state.pos, opos = inst.state.opos, R = inst.state.R;
        unsigned int last = 1u << (R % 8);     /* bound of the last, partial byte of the block */
        unsigned int fits = xk_choice(2);
        unsigned int room = (R - 2) / 8 - pos, oroom = (R + 7) / 8 - opos;
        unsigned int n = xk_range32(0, 0xffffffffu), m = xk_range32(0, 0xffffffffu);
        QUIET;
        xk_watch(&inst);
        switch (xk_choice(7)) {
        case 0: {       /* duplexing */
            unsigned char *Z;
            g_suffix = xk_range8(0, 255);
            if (fits) {
                unsigned int left;
                n = xk_range32(0, room); m = xk_range32(0, (R + 7) / 8);
                left = R - 2 - 8 * (pos + n);
                g_suffix = xk_range8(1, 255);
                if (left < 7) xk_assume(g_suffix < (1u << (left + 1)));
            }
            g_in = xk_in(n, "sigma"); g_left = n; Z = xk_out(m, "Z"); g_out = Z; g_oleft = m; g_case = m > R / 8;
            xk_watch(Z);
            r = F(Duplexing)(&inst, g_in, n, Z, m, g_suffix);
            if (r != 0) { xk_assert(!fits, "P06:duplexing call that fits is accepted"); xk_assert(xk_untouched(&inst) && xk_untouched(Z), "P06:refused duplexing call has no effect"); }
            else {
                xk_assert(g_suffix != 0, "P06:zero end of input refused");
                xk_assert(g_left == 0 && g_oleft == 0, "P01:duplexing consumes its input and produces its output");
                xk_assert(inst.state.ph == 0 && inst.state.pos == 0, "P01:duplexing ends with a permutation");
                xk_assert(inst.state.opos == m, "P01:output position follows the output");
                if (m > R / 8) xk_assert(Z[m - 1] < last, "P04:output bits beyond the rate are cleared");
                xk_reach("duplexing");
            }
            break; }
        case 1:
            if (fits) n = xk_range32(0, room);
            g_in = xk_in(n, "input"); g_left = n;
            r = F(DuplexingFeedPartialInput)(&inst, g_in, n);
            if (r != 0) { xk_assert(!fits, "P06:input that fits is accepted"); xk_assert(xk_untouched(&inst), "P06:refused input has no effect"); }
            else { xk_assert(g_left == 0, "P01:all the input is queued"); xk_reach("feed"); }
            break;
        case 2:
            if (fits) n = xk_range32(0, room);
            r = F(DuplexingFeedZeroes)(&inst, n);
            if (r != 0) { xk_assert(!fits, "P06:input that fits is accepted"); xk_assert(xk_untouched(&inst), "P06:refused input has no effect"); }
            else { xk_assert(n <= room, "P04:queued zeroes stay in the outer part"); inst.state.pos += n; xk_reach("zeroes"); }
            break;
        case 3:
            if (fits) n = xk_range32(0, room);
            g_in = xk_in(n, "input"); g_left = n;
            r = F(DuplexingOverwritePartialInput)(&inst, g_in, n);
            if (r != 0) { xk_assert(!fits, "P06:input that fits is accepted"); xk_assert(xk_untouched(&inst), "P06:refused input has no effect"); }
            else { xk_assert(g_left == 0, "P01:all the input is queued"); xk_reach("overwrite"); }
            break;
        case 4:
            if (fits) { n = xk_range32(0, room); xk_assume(pos == 0); }
            g_left = n;
            r = F(DuplexingOverwriteWithZeroes)(&inst, n);
            if (r != 0) { xk_assert(!fits, "P06:overwriting that fits is accepted"); xk_assert(xk_untouched(&inst), "P06:refused input has no effect"); }
            else { xk_assert(g_left == 0, "P01:all the input is queued"); xk_assert(pos == 0, "P06:overwriting with zeroes after input refused"); xk_reach("overwritezeroes"); }
            break;
        case 5: {
            unsigned char *o;
            if (fits) m = xk_range32(0, oroom);
            o = xk_out(m, "output"); g_out = o; g_oleft = m; xk_watch(o); g_case = m && (opos > R / 8 || m > R / 8 - opos);
            r = F(DuplexingGetFurtherOutput)(&inst, o, m);
            if (r != 0) { xk_assert(!fits, "P06:output that is available is given"); xk_assert(xk_untouched(&inst) && xk_untouched(o), "P06:refused output has no effect"); }
            else {
                xk_assert(g_oleft == 0, "P01:all the output is produced");
                xk_assert(m == 0 || inst.state.opos == opos + m, "P01:output position follows the output");
                if (m && (opos > R / 8 || m > R / 8 - opos)) xk_assert(o[m - 1] < last, "P04:output bits beyond the rate are cleared");
                xk_reach("output");
            }
            break; }
        case 6: {
            unsigned char *o;
            if (fits) m = xk_range32(0, oroom);
            g_mask = xk_in(m, "addend"); g_mleft = m;
            o = xk_out(m, "output"); g_out = o; g_oleft = m; xk_watch(o); g_case = m && (opos > R / 8 || m > R / 8 - opos);
            r = F(DuplexingGetFurtherOutputAndAdd)(&inst, g_mask, o, m);
            if (r != 0) { xk_assert(!fits, "P06:output that is available is given"); xk_assert(xk_untouched(&inst) && xk_untouched(o), "P06:refused output has no effect"); }
            else {
                xk_assert(g_oleft == 0 && g_mleft == 0, "P01:all the output is produced");
                if (m && (opos > R / 8 || m > R / 8 - opos)) xk_assert(o[m - 1] < last, "P04:output bits beyond the rate are cleared");
                xk_reach("outputadd");
            }
            break; }
        }
        QUIET; xk_watch(&inst);
    }
}
