/* KangarooTwelve over the TurboSHAKE contract and the parallel permutation contract */
#include "contract.h"
#include "KangarooTwelve.h"
#ifndef SEC
#define SEC 128
#endif
#define RATE (1600 - 2 * SEC)
#define RB (RATE / 8)
#define CHUNK 8192
#include "items.h"
#include "tree.h"
static SP *g_final;
static int g_stage;         /* 0: first chunk, goes to the final node; 1: followed by its marker; 2: chaining values and their number */
static int g_late;            /* the marker was absorbed, zeros up to the lane boundary are due */
static size_t g_fpos;       /* bytes of the first chunk */
/* the marker, once padded, ends at a lane boundary */
static void settle(SP *s) {
    if (g_late) { xk_assert(s->byteIOIndex == (s->state.pos + 7) / 8 * 8, "P14:the first chunk's marker is padded to a whole lane"); s->state.pos = s->byteIOIndex; g_late = 0; }
}
#define TREE_START() do { xk_assert(g_stage == 1, "P17:the first chunk goes to the final node"); settle(g_final); } while (0)
#define TREE_MONITOR
#ifdef XKCP_has_KeccakP1600times2
#include "KeccakP-1600-times2-SnP.h"
#endif
#ifdef XKCP_has_KeccakP1600times4
#include "KeccakP-1600-times4-SnP.h"
#endif
#ifdef XKCP_has_KeccakP1600times8
#include "KeccakP-1600-times8-SnP.h"
#endif
/* at most a length of 8 bytes and three more, without a loop so that the analysis keeps the cases apart */
static void bytes(SP *s, const unsigned char *d, size_t n) {
    xk_assert(n <= 11, "P01+P14:no byte beyond the prescribed encoding");
#define B(i) if (n > i) one(s, d[i]);
    B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7) B(8) B(9) B(10)
}
/* the next bytes of the message: caller's buffer, then (finalization) right_encode of the customization's length */
static void source(SP *s, const unsigned char *data, size_t n) {
    if (g_left == 0 && g_last) { bytes(s, data, n); return; }
    xk_assert(xk_same(data, g_in) && data == g_in, "P01+P14+P17:absorbed bytes are the next input bytes");
    xk_assert(n <= g_left, "P01+P14+P17:no more bytes absorbed than given");
    g_in += n; g_left -= n;
}
void mon_init(SP *s, unsigned int rate, unsigned int capacity) {
    xk_assert(capacity == 2 * SEC, "P09:capacity of this function");
    if (s != g_final) { xk_assert(g_stage == 1, "P17:the first chunk goes to the final node"); settle(g_final); leaf_open(); }
}
void mon_absorb(SP *s, const unsigned char *data, size_t n) {
    if (n == 0) return;
    if (s != g_final) {
        xk_assert(s->byteIOIndex == s->state.pos, "P01:position in the block is left alone");
        xk_assert(g_leaf == 1, "P17:leaf input goes to an open leaf");
        source(s, data, n); g_lpos += n;
        xk_assert(g_lpos <= CHUNK, "P17:a leaf absorbs no more than its chunk");
        return;
    }
    settle(s);
    xk_assert(s->byteIOIndex == s->state.pos, "P01:position in the block is left alone");
    if (tree_absorb_cv(data, n)) { xk_assert(g_stage == 1, "P17:chaining values come after the first chunk"); return; }
    if (g_stage == 0 && (g_left > 0 ? xk_same(data, g_in) : g_fpos < CHUNK)) {
        source(s, data, n); g_fpos += n;
        xk_assert(g_fpos <= CHUNK, "P17:the final node takes the first chunk only");
        return;
    }
    if (g_stage == 0) {
        xk_assert(g_fpos == CHUNK && (g_left > 0 || cur < ni), "P17:the first chunk is closed when it is complete and more follows");
        xk_assert(n == 1 && data[0] == 0x03, "P14:marker after the first chunk");
        g_late = 1; g_stage = 1; return;
    }
    if (g_stage == 1) {
        tree_settled();
        xk_assert(g_last && g_left == 0 && cur == ni && g_leaf == 0, "P17:the number of chaining values comes after the last leaf");
        g_stage = 2; ni = 0; want(RENC0, g_leaves, 0); want(BYTE, 0xFF, 0); want(BYTE, 0xFF, 0); start();
    }
    bytes(s, data, n);
}
/* the index matters while the first chunk is absorbed; elsewhere any value will do */
unsigned int mon_index(SP *s) { return s == g_final && g_stage == 0 ? (unsigned int)(g_fpos % RB) : s == g_final && g_late ? (unsigned int)((g_fpos + 1) % RB) : xk_range32(0, RB - 1); }
void mon_suffix(SP *s, unsigned char d) {
    if (s != g_final) { xk_assert(g_lpos == CHUNK || (g_left == 0 && cur == ni), "P17:a leaf is closed when its chunk is complete or the input has ended"); leaf_suffix(d); return; }
    tree_settled();
    xk_assert(g_last, "P01:the suffix comes at finalization");
    xk_assert(g_left == 0, "P01+P17:every input byte is absorbed");
    xk_assert(cur == ni, "P14:the prescribed encoding is complete");
    xk_assert(s->byteIOIndex == s->state.pos, "P01:position in the block is left alone");
    xk_assert(g_stage != 1, "P17:the number of chaining values is absorbed");
    xk_assert(d == (g_stage == 0 ? 0x07 : 0x06), "P09:suffix of the final node");
}
void mon_squeeze(SP *s, unsigned char *data, size_t n) {
    if (s != g_final) { leaf_squeeze(data, n); return; }
    if (n == 0) return;
    xk_assert(xk_same(data, g_out) && data == g_out, "P01:output bytes are produced in order");
    xk_assert(n <= g_oleft, "P01:no more bytes output than requested");
    g_out += n; g_oleft -= n;
}
#ifdef MODEL_FAIL
#define CHK(f, r) do { if (g_failed) xk_assert((r) != 0, "P08:" f ": inner failure is reported"); xk_reach(f); } while (0)
#else
#define CHK(f, r) do { xk_assert((r) == 0, "P06:" f ": succeeds"); tree_settled(); xk_assert(g_left == 0, "P01+P17:every input byte is absorbed"); xk_assert(cur == ni, "P14:the prescribed encoding is complete"); \
    xk_assert(g_leaf == 0 || g_lpos < CHUNK, "P17:a leaf is closed when its chunk is complete"); xk_assert(g_oleft == 0, "P01:every requested output byte is produced"); xk_reach(f); } while (0)
#endif
#define REFUSED(P, f, r, obj, buf) do { xk_assert((r) != 0, P ":" f " is refused"); xk_assert(xk_untouched(obj), P ":refused " f " leaves the instance alone"); if (buf) xk_assert(xk_untouched(buf), P ":refused " f " leaves the output alone"); } while (0)
static void out(unsigned char **o, size_t n) { *o = xk_out(n, "output"); xk_watch(*o); g_out = *o; g_oleft = n; }
static void tree_init(void) { g_blk = CHUNK; g_rb = RB; g_cap = SEC / 4; g_rounds = 12; g_lsuf = 0x0B; g_leaf = 0; g_lpos = 0; g_cv = 0; g_cvn = 0; g_leaves = 0; g_last = 0; g_stage = 0; g_late = 0; g_fpos = 0; }
#define BOUND xk_assume(g_leaves <= (size_t)1 << (sizeof(size_t) == 8 ? 43 : 30))   /* messages of up to 2^56 bytes, 2^43 on 32-bit targets */
void client_init(void) {
    KangarooTwelve_Instance h; size_t ol = xk_rangesz(0, (size_t)-1); int r; unsigned int sec = xk_range32(0, 0xffffffffu); int valid = xk_choice(2);
    if (valid) sec = SEC;
    clear(); tree_init(); g_final = &h.finalNode; xk_watch(&h);
    if (sec == 384 - SEC) return;             /* the other security level, analysed by its own unit */
    r = KangarooTwelve_Initialize(&h, (int)sec, ol);
    if (sec != SEC) { REFUSED("P06", "KangarooTwelve_Initialize with another security level", r, &h, 0); return; }
    CHK("KangarooTwelve_Initialize", r);
    if (r == 0) { clear(); xk_watch(&h); if (SEC == 128) { KT128_Initialize(&h, ol) } else { KT256_Initialize(&h, ol) } }
}
static void final_items(const unsigned char *cu, size_t cn) { g_in = cu; g_left = cn; g_last = 1; want(RENC0, cn, 0); }
static void history(size_t ol, int many, size_t lo, size_t hi) {   /* at most many updates, any number when negative; bounds of the customization's length */
    KangarooTwelve_Instance h; int fin, r;
    clear(); tree_init(); g_final = &h.finalNode;
    if (KangarooTwelve_Initialize(&h, SEC, ol)) return;
    clear(); xk_watch(&h);
    while (1) {
        if (xk_choice(2)) {
            size_t n = xk_rangesz(0, XK_MAXLEN / 16); const unsigned char *d = xk_in(n, "data");
            BOUND;
            g_in = d; g_left = n;
            r = KangarooTwelve_Update(&h, d, n); CHK("KangarooTwelve_Update", r); if (r) return;
            clear(); xk_watch(&h);
            if (many >= 0 && --many <= 0) break;
        } else break;
    }
    BOUND; clear();
    { unsigned char *o; size_t cn = xk_rangesz(lo, hi); const unsigned char *cu = xk_in(cn, "customization");
      if (ol) out(&o, ol); else { o = xk_out(0, "output"); xk_watch(o); }
      final_items(cu, cn);
      r = KangarooTwelve_Final(&h, o, cu, cn); CHK("KangarooTwelve_Final", r); if (r) return; }
    fin = ol ? 2 : 1;
    while (1) {
        clear(); xk_watch(&h);
        switch (xk_choice(4)) {
        case 0: { const unsigned char *d = xk_in(8, "data"); r = KangarooTwelve_Update(&h, d, 8); REFUSED("P05", "KangarooTwelve_Update after output", r, &h, 0); break; }
        case 1: { unsigned char *o; out(&o, ol ? ol : 8); r = KangarooTwelve_Final(&h, o, 0, 0); REFUSED("P05", "second KangarooTwelve_Final", r, &h, o); break; }
        case 2: { size_t n = xk_rangesz(0, XK_MAXLEN); unsigned char *o; out(&o, n); r = KangarooTwelve_Squeeze(&h, o, n);
            if (fin != 1) REFUSED("P05", "KangarooTwelve_Squeeze out of phase", r, &h, o);
            else { CHK("KangarooTwelve_Squeeze", r); if (r) return; } break; }
        default: return;
        }
    }
}
void client_xof(void) { history(0, -1, 0, 255); }
void client_two(void) { history(0, 2, 0, 255); }
void client_one(void) { history(0, 1, 0, 255); }
#define SZ64 (SIZE_MAX > 0xffffffffu)
void client_custom1(void) { history(0, 0, 256, 65535); }
void client_custom2(void) { history(0, 0, 65536, 0xffffff); }
void client_custom3(void) { history(0, 0, 0x1000000, SZ64 ? 0xffffffffu : XK_MAXLEN / 16); }
#if SIZE_MAX > 0xffffffffu
void client_custom4(void) { history(0, 0, (size_t)1 << 32, ((size_t)1 << 40) - 1); }
void client_custom5(void) { history(0, 0, (size_t)1 << 40, ((size_t)1 << 48) - 1); }
void client_custom6(void) { history(0, 0, (size_t)1 << 48, XK_MAXLEN / 16); }
#endif
void client_fixed(void) { history(xk_rangesz(1, XK_MAXLEN), 0, 0, 255); }
void client_early(void) {         /* output before finalization, one-shot without output */
    KangarooTwelve_Instance h; int r; const unsigned char *d = xk_in(64, "data"); unsigned char *o;
    clear(); tree_init(); g_final = &h.finalNode;
    if (KangarooTwelve_Initialize(&h, SEC, 0)) return;
    clear(); xk_watch(&h); out(&o, 64); r = KangarooTwelve_Squeeze(&h, o, 64); REFUSED("P05", "KangarooTwelve_Squeeze before finalization", r, &h, o);
    clear(); out(&o, 0); r = KangarooTwelve(SEC, d, 64, o, 0, d, 0); xk_assert(r != 0, "P06:KangarooTwelve without output is refused");
}
