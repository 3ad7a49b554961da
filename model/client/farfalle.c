/* Kravatte and Xoofff over the permutation contracts */
#include <string.h>
#include "xk.h"
#ifdef XOOFFF
#include "Xoofff.h"
#ifdef XKCP_has_Xoodootimes4
#include "Xoodoo-times4-SnP.h"
#endif
#ifdef XKCP_has_Xoodootimes8
#include "Xoodoo-times8-SnP.h"
#endif
#ifdef XKCP_has_Xoodootimes16
#include "Xoodoo-times16-SnP.h"
#endif
#define W 48
#define LANE 4
#define F_INST Xoofff_Instance
#define F_KEY Xoofff_MaskDerivation
#define F_IN Xoofff_Compress
#define F_OUT Xoofff_Expand
#define F_ONE Xoofff
#define F_INIT Xoofff_FlagInit
#define F_LAST Xoofff_FlagLastPart
#define F_SHORT Xoofff_FlagXoofffie
#define N_KEY "Xoofff_MaskDerivation"
#define N_IN "Xoofff_Compress"
#define N_OUT "Xoofff_Expand"
#define N_ONE "Xoofff"
#else
#include "Kravatte.h"
#ifdef XKCP_has_KeccakP1600times2
#include "KeccakP-1600-times2-SnP.h"
#endif
#ifdef XKCP_has_KeccakP1600times4
#include "KeccakP-1600-times4-SnP.h"
#endif
#ifdef XKCP_has_KeccakP1600times8
#include "KeccakP-1600-times8-SnP.h"
#endif
#define W 200
#define LANE 8
#define F_INST Kravatte_Instance
#define F_KEY Kravatte_MaskDerivation
#define F_IN Kra
#define F_OUT Vatte
#define F_ONE Kravatte
#define F_INIT KRAVATTE_FLAG_INIT
#define F_LAST KRAVATTE_FLAG_LAST_PART
#define F_SHORT KRAVATTE_FLAG_SHORT
#define N_KEY "Kravatte_MaskDerivation"
#define N_IN "Kra"
#define N_OUT "Vatte"
#define N_ONE "Kravatte"
#endif
#include "farfalle/mon.h"
static const unsigned char *b_enc;
#ifdef XOOFFF
typedef Xoodoo_plain32_state S;
#define P(x) Xoodoo_ ## x
void Xoodoo_StaticInitialize(void) {}
void Xoodoo_Permute_6rounds(S *s) { f_perm(6); }
#else
typedef KeccakP1600_plain64_state S;
#define P(x) KeccakP1600_ ## x
void KeccakP1600_Permute_24rounds(S *s) { f_perm(24); }
#endif
void P(Initialize)(S *s) {}
void P(Permute_Nrounds)(S *s, unsigned int n) { f_perm(n); }
void P(Permute_12rounds)(S *s) { f_perm(12); }
#define RANGE(o, n) do { xk_assert((o) <= W && (n) <= W - (o), "P02:range inside the state"); } while (0)
void P(OverwriteBytes)(S *s, const unsigned char *data, unsigned int offset, unsigned int n) { RANGE(offset, n); xk_read(data, n); f_overwrite(data, offset, n); }
void P(OverwriteWithZeroes)(S *s, unsigned int n) { MON(0, "P15:the whole state is set before each block"); }
void P(AddBytes)(S *s, const unsigned char *data, unsigned int offset, unsigned int n) { RANGE(offset, n); f_add(data, offset, n); }
void P(AddByte)(S *s, unsigned char b, unsigned int offset) { xk_assert(offset < W, "P02:AddByte offset inside the state"); f_addbyte(b, offset); }
void P(ExtractBytes)(const S *s, unsigned char *data, unsigned int offset, unsigned int n) { RANGE(offset, n); f_extract(data, offset, n); }
void P(ExtractAndAddBytes)(const S *s, const unsigned char *in, unsigned char *out, unsigned int offset, unsigned int n) { RANGE(offset, n); f_extadd(in, out, offset, n); }
#define FARFALLE_MON
static size_t fast_in(size_t tn, const void *x, const void *k, const unsigned char *input, size_t n) {
    size_t r = n / (tn * W) * (tn * W);
    xk_read(input, n);
    MON(n >= tn * W, "P15:a fast loop is given at least one group of blocks");
    MON(g_op == G_COMPRESS && b_ph == 0, "P15:a block is finished before the next one starts");
    MON(xk_same(k, g_roll) && k == g_roll && xk_same(x, g_x) && x == g_x, "P15:fast compression works on the rolled key and the accumulator");
    took(input, r, 0); xk_havoc((void *)k, W); xk_havoc((void *)x, W); g_kc = 0;
    return r;
}
static size_t fast_out(size_t tn, const void *y, const void *k, unsigned char *out, size_t n) {
    size_t r = n / (tn * W) * (tn * W);
    xk_write(out, r);
    MON(n >= tn * W, "P15:a fast loop is given at least one group of blocks");
    MON(g_op == G_EXPAND && b_ph == 0 && g_q == 0, "P15:a block is finished before the next one starts");
    MON(xk_same(k, g_roll) && k == g_roll && xk_same(y, g_y) && y == g_y, "P15:fast expansion works on the rolled key and accumulator");
    MON(xk_same(out, g_out) && out == g_out, "P01+P15:output bytes are produced in order");
    MON(r <= g_oleft, "P01+P15:no more bytes output than requested");
    g_out += r; g_oleft -= r; xk_havoc((void *)y, W); g_kc = 0;
    return r;
}
#ifdef XOOFFF
#define FP Xoodootimes
#define FAST(N) size_t Xooffftimes ## N ## _CompressFastLoop(unsigned char *k, unsigned char *x, const unsigned char *input, size_t n) { return fast_in(N, x, k, input, n); } \
    size_t Xooffftimes ## N ## _ExpandFastLoop(unsigned char *y, const unsigned char *k, unsigned char *out, size_t n) { return fast_out(N, y, k, out, n); }
#ifdef MODEL_FASTX
size_t Xoofff_CompressFastLoop(unsigned char *k, unsigned char *x, const unsigned char *input, size_t n) { return fast_in(1, x, k, input, n); }
size_t Xoofff_ExpandFastLoop(unsigned char *y, const unsigned char *k, unsigned char *out, size_t n) { return fast_out(1, y, k, out, n); }
#endif
#else
#define FP KeccakP1600times
#define FAST(N) size_t KeccakP1600times ## N ## _KravatteCompress(uint64_t *x, uint64_t *k, const unsigned char *input, size_t n) { return fast_in(N, x, k, input, n); } \
    size_t KeccakP1600times ## N ## _KravatteExpand(uint64_t *y, const uint64_t *k, unsigned char *out, size_t n) { return fast_out(N, y, k, out, n); }
#endif
#define FW W
#ifdef FT2
#define TN 2
#include "farfalle/times.h"
#undef TN
FAST(2)
#endif
#if defined(FT4) || defined(FX4)
#define TN 4
#include "farfalle/times.h"
#undef TN
FAST(4)
#endif
#if defined(FT8) || defined(FX8)
#define TN 8
#include "farfalle/times.h"
#undef TN
FAST(8)
#endif
#ifdef FX16
#define TN 16
#include "farfalle/times.h"
#undef TN
FAST(16)
#endif
static int p_phase, p_ok;                 /* 0 compressing, 1 expanding, 2 expanded */
static void idle(void) { g_op = G_NONE; b_ph = 0; b_n = 0; b_cnt = 0; b_cov = 0; b_enc = 0; g_in = 0; g_left = 0; g_bits = 0; g_last = 0; g_final = 0; g_padded = 0; g_out = 0; g_oleft = 0; g_qs = 0; g_case = 0; g_kc = 0; g_qn = 0; }
static void forget(void) {   /* contents no assertion relates across calls */
    idle(); xk_havoc(g_roll, W); xk_havoc(g_x, W); xk_havoc(g_y, W); xk_havoc(g_kcopy, W); xk_havoc(g_snap, W);
}
static void derive(F_INST *v, int bits) {
    size_t n = xk_rangesz(0, W - 1); unsigned char *d = xk_out(n + 1, "Key"); unsigned int b = bits ? 1 + xk_choice(7) : 0; int r; unsigned char last;
    g_k = v->k; g_roll = v->kRoll; g_x = v->xAccu; g_y = v->yAccu; g_queue = v->queue;
    idle(); g_op = G_MASK; g_case = b; last = xk_range8(0, 255); if (b) d[n] = last; g_bits = b; g_last = last; g_in = d; g_left = n;
    r = F_KEY(v, d, 8 * n + b);
    xk_assert(r == 0, "P06:" N_KEY " accepts valid keys"); xk_assert(b_ph == 0, "P15:" N_KEY ": the derived mask replaces the key"); xk_reach(N_KEY);
    idle(); p_phase = 0; g_q = 0;
}
static void feed(F_INST *v, int one) {   /* whole bytes, or bits with the last part */
    size_t n = xk_rangesz(0, XK_MAXLEN / 8); int fl = xk_choice(2) ? F_LAST : 0, in = xk_choice(2) ? F_INIT : 0, r; const unsigned char *d = xk_in(n, "input");
    unsigned int q0; idle(); if (in || p_phase != 0) g_q = 0;
    q0 = g_q; g_op = G_COMPRESS; g_final = fl != 0; g_in = d; g_left = n; g_case = g_final;
    memcpy(g_snap, g_queue, W);
    r = F_IN(v, d, 8 * n, fl | in);
    xk_assert(r == 0, "P06:" N_IN ": succeeds"); xk_assert(b_ph == 0, "P15:" N_IN ": a block is finished");
    if (g_final) { xk_assert(g_left == 0 && g_q == 0, "P01+P15:" N_IN ": every input byte is absorbed"); xk_assert(g_padded, "P15:" N_IN ": the last part is padded"); }
    else { size_t rest = q0 + n < W ? n : (n - (q0 ? W - q0 : 0)) % W; xk_assert(g_left == rest, "P01+P15:" N_IN ": full blocks are absorbed"); xk_assert(g_left < W - g_q, "P15:" N_IN ": full blocks are absorbed"); xk_assert(xk_equal(g_queue + g_q, g_in, g_left), "P01+P15:" N_IN ": the rest of the input is queued"); if (g_q) xk_assert(xk_equal(g_queue, g_snap, g_q), "P15:" N_IN ": queued bytes are kept until their block is full"); g_q += g_left; xk_assume(g_q < W); }
    xk_reach(N_IN); p_phase = 0; idle();
}
static void drain(F_INST *v) {
    size_t n = xk_rangesz(0, XK_MAXLEN / 8), m = 0; int fl = xk_choice(2) ? F_LAST : 0, sh = xk_choice(2) ? F_SHORT : 0, r; unsigned char *o = xk_out(n, "output");
    int bad = p_phase == 2 || (p_phase == 0 && g_q != 0);
    unsigned int q0 = g_q;
    idle(); g_final = fl != 0; g_case = g_final + 2 * bad;
    if (bad) { xk_watch(v); xk_watch(o); r = F_OUT(v, o, 8 * n, fl | sh); xk_assert(r != 0, "P05:" N_OUT " out of phase is refused"); xk_assert(xk_untouched(v) && xk_untouched(o), "P05:refused " N_OUT " has no effect"); xk_watch(0); idle(); return; }
    if (p_phase == 0) g_op = sh ? G_EXPAND : G_MID; else { g_op = G_EXPAND; if (g_q) m = n < W - g_q ? n : W - g_q; }
    g_out = o + m; g_oleft = n - m; if (m) { g_q += m; if (g_q == W) g_q = 0; }
    memcpy(g_snap, g_queue, W);
    r = F_OUT(v, o, 8 * n, fl | sh);
    xk_assert(r == 0, "P06:" N_OUT ": succeeds"); xk_assert(g_op == G_EXPAND, "P15:" N_OUT ": expansion starts from the accumulator");
    xk_assert(g_oleft == 0, "P01+P15:" N_OUT ": every requested output byte is produced");
    xk_assert(xk_equal(o, g_snap + q0, m), "P15:" N_OUT ": queued output comes first");
    xk_assert(b_ph == 0 || (b_ph == 6 && (g_final || b_n == W)), "P15:" N_OUT ": the rest of the last block is queued");
    xk_reach(N_OUT); p_phase = g_final ? 2 : 1; xk_assume(g_q < W); idle();
}
static void feed_bits(F_INST *v) {
    size_t n = xk_rangesz(0, XK_MAXLEN / 8); int in = xk_choice(2) ? F_INIT : 0, r; unsigned int b = 1 + xk_choice(7); unsigned char *d = xk_out(n + 1, "input"), last = xk_range8(0, 255);
    int fin = xk_choice(2);
    d[n] = last;
    if (!fin) { idle(); g_case = b; xk_watch(v); r = F_IN(v, d, 8 * n + b, in); xk_assert(r != 0, "P06:" N_IN " refuses partial bytes before the last part"); xk_assert(xk_untouched(v), "P06:refused " N_IN " has no effect"); xk_watch(0); idle(); return; }
    idle(); if (in || p_phase != 0) g_q = 0;
    g_op = G_COMPRESS; g_final = 1; g_in = d; g_left = n; g_case = b; g_bits = b; g_last = last;
    memcpy(g_snap, g_queue, W);
    r = F_IN(v, d, 8 * n + b, in | F_LAST);
    xk_assert(r == 0, "P06:" N_IN ": succeeds"); xk_assert(b_ph == 0, "P15:" N_IN ": a block is finished");
    xk_assert(g_left == 0 && g_q == 0, "P01+P15:" N_IN ": every input byte is absorbed"); xk_assert(g_padded, "P15:" N_IN ": the last part is padded");
    xk_reach(N_IN " (bits)"); p_phase = 0; idle();
}
static void drain_bits(F_INST *v) {
    size_t n = xk_rangesz(0, XK_MAXLEN / 8), m = 0; int sh = xk_choice(2) ? F_SHORT : 0, r; unsigned int b = 1 + xk_choice(7); unsigned char *o = xk_out(n + 1, "output");
    int fin = xk_choice(2);
    if (p_phase == 2 || (p_phase == 0 && g_q != 0)) return;
    idle(); g_case = b;
    if (!fin) { xk_watch(v); xk_watch(o); r = F_OUT(v, o, 8 * n + b, sh); xk_assert(r != 0, "P06:" N_OUT " refuses partial bytes before the last part"); xk_assert(xk_untouched(v) && xk_untouched(o), "P06:refused " N_OUT " has no effect"); xk_watch(0); idle(); return; }
    g_final = 1;
    if (p_phase == 0) g_op = sh ? G_EXPAND : G_MID; else { g_op = G_EXPAND; if (g_q) m = n + 1 < W - g_q ? n + 1 : W - g_q; }
    g_out = o + m; g_oleft = n + 1 - m; g_q = 0;
    r = F_OUT(v, o, 8 * n + b, sh | F_LAST);
    xk_assert(r == 0, "P06:" N_OUT ": succeeds"); xk_assert(g_oleft == 0, "P01+P15:" N_OUT ": every requested output byte is produced");
    xk_assert(o[n] < 1u << b, "P20:" N_OUT ": unused bits of the last output byte are zero");
    xk_reach(N_OUT " (bits)"); p_phase = 2; idle();
}
void client(void) {
    F_INST v;
    derive(&v, 0);
    forget();
    while (1) { if (xk_choice(2)) feed(&v, 0); else drain(&v); forget(); }
}
void client_bits(void) {
    F_INST v;
    derive(&v, 0); forget();
    if (xk_choice(2)) { feed(&v, 0); forget(); }
    feed_bits(&v);
}
void client_bits_out(void) {
    F_INST v;
    derive(&v, 0); forget();
    if (xk_choice(2)) { drain(&v); forget(); }
    drain_bits(&v);
}
void client_key(void) {
    F_INST v; int r;
    if (xk_choice(2)) { derive(&v, 1); return; }
    { size_t n = xk_rangesz(8 * W, XK_MAXLEN); unsigned char *d = xk_out(n / 8 + 1, "Key"); xk_watch(&v); r = F_KEY(&v, d, n); xk_assert(r != 0, "P06:" N_KEY " refuses keys that are too long"); xk_assert(xk_untouched(&v), "P06:refused " N_KEY " has no effect"); }
}
#if defined(XOOFFF) && !defined(MODEL_FASTX)
void Xoofff_AddIs(unsigned char *output, const unsigned char *input, size_t bitLen);
void client_addis(void) {
    size_t n = xk_rangesz(0, XK_MAXLEN / 8); unsigned int b = xk_choice(8); const unsigned char *in = xk_in(b ? n + 1 : n, "input"); unsigned char *out = xk_out(b ? n + 1 : n, "output");
    Xoofff_AddIs(out, in, 8 * n + b);
    if (b) xk_assert(out[n] < 1u << b, "P20:Xoofff_AddIs: unused bits of the last output byte are zero");
    xk_reach("Xoofff_AddIs");
}
#endif
