/* the sponge-based pseudo-random generator over the contract of the duplex object */
#include <string.h>
#include "xk.h"
#include "KeccakPRG.h"
#define D(x) KeccakWidth1600_##x
typedef KeccakWidth1600_DuplexInstance Dx;
typedef KeccakWidth1600_SpongePRG_Instance Inst;
static unsigned int g_rate, g_rho; static int g_mode, g_fresh, g_step, g_failed;   /* mode: 1 feed, 2 fetch, 3 forget; fresh: the output block postdates the last input */
static const unsigned char *g_in; static size_t g_left;
static unsigned char *g_out; static size_t g_oleft;
#ifdef MODEL_FAIL
#define FAILS if (xk_choice(2)) { g_failed = 1; return 1; }
#define MON(x) do { if (!g_failed) { x; } } while (0)
#else
#define FAILS
#define MON(x) do { x; } while (0)
#endif
int D(DuplexInitialize)(Dx *d, unsigned int rate, unsigned int capacity) {
    FAILS
    xk_assert(rate >= 10 && rate <= 1600, "P06:rate and capacity accepted by the duplex object"); xk_assert(rate + capacity == 1600, "P06:rate and capacity accepted by the duplex object");
    g_rate = rate; g_rho = (rate - 2) / 8;
    d->rate = rate; d->byteInputIndex = 0; d->byteOutputIndex = (rate + 7) / 8; return 0;
}
static void input(Dx *d, const unsigned char *data, unsigned int n) {
    xk_read(data, n);
    if (n == 0) return;
    MON(xk_assert(g_mode == 1, "P01:input bytes are fed when input is given"));
    MON(xk_assert(xk_same(data, g_in) && data == g_in, "P01:fed bytes are the next input bytes"));
    MON(xk_assert(n <= g_left, "P01:no more bytes fed than given"));
    g_in += n; g_left -= n; d->byteInputIndex += n;
}
static void output(Dx *d, unsigned char *data, unsigned int n) {
    xk_write(data, n);
    if (n == 0) return;
    MON(xk_assert(g_mode == 2, "P01:output is taken when output is requested"));
    MON(xk_assert(g_fresh, "P01:output depends on all the input fed before"));
    MON(xk_assert(d->byteOutputIndex + n <= g_rho, "P01:each block gives its first rho bytes"));
    MON(xk_assert(xk_same(data, g_out) && data == g_out, "P01:output bytes are produced in order"));
    MON(xk_assert(n <= g_oleft, "P01:no more bytes output than requested"));
    g_out += n; g_oleft -= n; d->byteOutputIndex += n;
}
int D(Duplexing)(Dx *d, const unsigned char *sigma, unsigned int n, unsigned char *Z, unsigned int m, unsigned char end) {
    FAILS
    MON(xk_assert(n <= g_rho && d->byteInputIndex + n <= g_rho, "P01:input fits in the block"));
    MON(xk_assert(m <= g_rho, "P01:each block gives its first rho bytes"));
    MON(xk_assert(end == 0x01, "P09+P17:no bits follow the input of a block"));
    input(d, sigma, n);
    if (g_mode == 1) MON(xk_assert(d->byteInputIndex == g_rho, "P01:a block of input is closed when it is complete"));
    if (g_mode == 2) { MON(xk_assert(g_oleft > 0, "P01:a new block of output is made when needed")); MON(xk_assert(!g_fresh || d->byteOutputIndex == g_rho, "P01:a new block of output follows the last byte of the previous one")); g_fresh = 1; }
    if (g_mode == 3) { MON(xk_assert(g_step == 0 || g_step == 2, "P01:forgetting is one call, overwriting, and one call")); g_step++; }
    d->byteInputIndex = 0; d->byteOutputIndex = 0; output(d, Z, m);
    return 0;
}
int D(DuplexingFeedPartialInput)(Dx *d, const unsigned char *data, unsigned int n) {
    FAILS
    MON(xk_assert(n <= g_rho && d->byteInputIndex + n <= g_rho, "P01:input fits in the block"));
    input(d, data, n); return 0;
}
int D(DuplexingFeedZeroes)(Dx *d, unsigned int n) { FAILS MON(xk_assert(n == 0, "P01:fed bytes are the next input bytes")); return 0; }
int D(DuplexingOverwritePartialInput)(Dx *d, const unsigned char *data, unsigned int n) { FAILS MON(xk_assert(n == 0, "P01:fed bytes are added, not overwritten")); return 0; }
int D(DuplexingOverwriteWithZeroes)(Dx *d, unsigned int n) {
    FAILS
    MON(xk_assert(g_mode == 3 && g_step == 1, "P01:forgetting is one call, overwriting, and one call"));
    MON(xk_assert(n == g_rho, "P01:forgetting overwrites the whole outer part"));
    MON(xk_assert(d->byteInputIndex == 0, "P01:overwriting with zeroes starts the block"));
    g_step = 2; d->byteInputIndex = n; return 0;
}
int D(DuplexingGetFurtherOutput)(Dx *d, unsigned char *data, unsigned int n) { FAILS output(d, data, n); return 0; }
int D(DuplexingGetFurtherOutputAndAdd)(Dx *d, const unsigned char *in, unsigned char *data, unsigned int n) { FAILS xk_read(in, n); MON(xk_assert(n == 0, "P01:output is not combined with anything")); return 0; }
#ifdef MODEL_FAIL
#define CHK(f, r) do { if (g_failed) { xk_assert((r) != 0, "P08:" f ": inner failure is reported"); xk_reach(f " reports failure"); return; } if (r) return; xk_reach(f); } while (0)
#else
#define CHK(f, r) do { xk_assert((r) == 0, "P06:" f ": succeeds"); xk_assert(g_left == 0, "P01:every input byte is fed"); xk_assert(g_oleft == 0, "P01:every requested output byte is produced"); xk_reach(f); } while (0)
#endif
void client(void) {
    Inst h; unsigned int cap = xk_range32(0, 0xffffffffu); int r, valid = xk_choice(2);
    if (valid) cap = xk_range32(0, 1590);
    g_mode = 0; g_fresh = 0; g_step = 0; g_failed = 0; g_in = 0; g_left = 0; g_out = 0; g_oleft = 0; g_rate = 0; g_rho = 0; xk_watch(&h);
    r = D(SpongePRG_Initialize)(&h, cap);
#ifdef MODEL_FAIL
    CHK("SpongePRG_Initialize", r);
#else
    if (!valid) xk_assume(cap > 1590);
    if (!valid) { xk_assert(r != 0, "P06:capacity above the width minus 10 is refused"); xk_assert(xk_untouched(&h), "P06:refused initialization has no effect"); return; }
    CHK("SpongePRG_Initialize", r); xk_assert(g_rate == 1600 - cap, "P09:the rate is the width minus the capacity"); xk_assert(g_rho == h.duplex.rate / 8 || g_rho == h.duplex.rate / 8 - 1, "P06:the duplex object is initialized");
#endif
    while (1) {
        unsigned int n = xk_range32(0, 0xffffffffu);
        xk_assume(h.duplex.byteInputIndex < g_rho);
        xk_watch(&h);
        switch (xk_choice(3)) {
        case 0: { const unsigned char *d = xk_in(n, "input"); g_mode = 1; g_in = d; g_left = n;
            r = D(SpongePRG_Feed)(&h, d, n); CHK("SpongePRG_Feed", r);
            g_fresh = 0; xk_assert(h.duplex.byteInputIndex < g_rho, "P01:a block of input is closed when it is complete");
            break; }
        case 1: { unsigned char *o = xk_out(n, "output"); g_mode = 2; g_out = o; g_oleft = n;
            r = D(SpongePRG_Fetch)(&h, o, n); CHK("SpongePRG_Fetch", r);
            break; }
        case 2: g_mode = 3; g_step = 0;
            r = D(SpongePRG_Forget)(&h);
#ifdef MODEL_FAIL
            CHK("SpongePRG_Forget", r);
#else
            if (8 * g_rho < 1600 - g_rate) { xk_assert(r != 0, "P06:forgetting less than the capacity is refused"); xk_assert(xk_untouched(&h), "P06:refused forgetting has no effect"); }
            else { CHK("SpongePRG_Forget", r); xk_assert(g_step == 3, "P01:forgetting is one call, overwriting, and one call"); g_fresh = 0; }
#endif
            break;
        }
        g_in = 0; g_left = 0; g_out = 0; g_oleft = 0; g_mode = 0; g_step = 0;
        xk_watch(&h);
    }
}
