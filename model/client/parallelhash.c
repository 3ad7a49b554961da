/* ParallelHash over the sponge contract and the parallel permutation contract */
#include "contract.h"
#include "SP800-185.h"
#ifndef SEC
#define SEC 128
#endif
#ifndef BLK
#define BLK 8192
#endif
#define J0(a, b, c) a ## b ## c
#define J(a, b, c) J0(a, b, c)
#define F(a, b) J(a, SEC, b)
#define S0(x) #x
#define S1(x) S0(x)
#define N(a, b) a S1(SEC) #b
#define NAME(b) N("ParallelHash", b)
#define ALG(b) F(ParallelHash, b)
#define RATE (1600 - 2 * SEC)
#define RB (RATE / 8)
#include "items.h"
#include "tree.h"
#define TREE_MONITOR
#ifdef XKCP_has_KeccakP1600times2
#include "KeccakP-1600-times2-SnP.h"
#endif
#ifdef XKCP_has_KeccakP1600times4
#include "KeccakP-1600-times4-SnP.h"
#endif
#ifdef XKCP_has_KeccakP1600times8
#include "KeccakP-1600-times8-SnP.h"
#endif
static SP *g_final;
void mon_init(SP *s, unsigned int rate, unsigned int capacity) {
    xk_assert(rate == RATE, "P09:rate of this function");
    xk_assert(capacity == 2 * SEC, "P09:capacity of this function");
    if (s != g_final) leaf_open();
}
void mon_absorb(SP *s, const unsigned char *data, size_t n) {
    if (n == 0) return;
    if (s != g_final) { leaf_absorb(data, n); return; }
    xk_assert(s->byteIOIndex == s->state.pos || (cur < ni && it[cur].kind != BYTE), "P01:position in the block is left alone");
    if (tree_absorb_cv(data, n)) { xk_assert(cur == 0 && idx == 0, "P17:chaining values come between the prefix and the number of blocks"); return; }
    absorb_items(s, data, n);
}
void mon_suffix(SP *s, unsigned char d) {
    if (s != g_final) { leaf_suffix(d); return; }
    tree_settled();
    xk_assert(cur == ni, "P14:the prescribed encoding is complete");
    xk_assert(s->byteIOIndex == s->state.pos, "P01:position in the block is left alone");
    xk_assert(e_suf, "P01:the suffix comes at finalization");
    xk_assert(d == e_merge, "P09+P14+P20:domain suffix of this function");
}
void mon_squeeze(SP *s, unsigned char *data, size_t n) {
    if (s != g_final) { leaf_squeeze(data, n); return; }
    if (n == 0) return;
    xk_assert(xk_same(data, g_out) && data == g_out, "P01:output bytes are produced in order");
    xk_assert(n <= g_oleft, "P01:no more bytes output than requested");
    g_out += n; g_oleft -= n;
}
#ifdef MODEL_FAIL
#define CHK(f, r) do { if (g_failed) xk_assert((r) != 0, "P08:" f ": inner failure is reported"); xk_reach(f); } while (0)
#else
#define CHK(f, r) do { xk_assert((r) == 0, "P06:" f ": succeeds"); tree_settled(); xk_assert(g_left == 0, "P01+P17:every input byte is absorbed"); xk_assert(cur == ni, "P14:the prescribed encoding is complete"); \
    xk_assert(g_leaf == 0 || g_lpos < g_blk, "P17:a leaf is closed when its block is complete"); xk_assert(g_oleft == 0, "P01:every requested output byte is produced"); xk_reach(f); } while (0)
#endif
#define REFUSED(P, f, r, obj, buf) do { xk_assert((r) != 0, P ":" f " is refused"); xk_assert(xk_untouched(obj), P ":refused " f " leaves the instance alone"); if (buf) xk_assert(xk_untouched(buf), P ":refused " f " leaves the output alone"); } while (0)
static void out(unsigned char **o, size_t bits) { size_t n = (bits + 7) / 8; *o = xk_out(n, "output"); xk_watch(*o); g_out = *o; g_oleft = n; }
static void lastbits(const unsigned char *o, size_t bits) { if (bits % 8 != 0) xk_assert(o[bits / 8] < (1u << (bits % 8)), "P20:unused bits of the last output byte are cleared"); }
#define MAXBITS (XK_MAXLEN)
static size_t abits(void) { size_t n; unsigned int k; if (xk_choice(2)) { n = xk_rangesz(0, MAXBITS / 8 - 1); k = 0; } else { n = xk_rangesz(0, 30); k = xk_choice(8); } return 8 * n + k; }
static void tree_init(size_t blk) { g_blk = blk; g_rb = RB; g_cap = SEC / 4; g_rounds = 24; g_lsuf = 0x1F; g_leaf = 0; g_lpos = 0; g_cv = 0; g_cvn = 0; g_leaves = 0; g_last = 0; }
static void prefix_items(const unsigned char *cu, size_t cb, size_t blk) { want(LENC, RB, 0); want(LENC, 96, 0); want(STR, 12, "ParallelHash"); want(LENC, cb, 0); want(BUF, (cb + 7) / 8, cu); want(PAD, 0, 0); want(LENC, blk, 0); start(); }
void client_init(void) {          /* every block length and customization */
    ParallelHash_Instance h; size_t blk = xk_rangesz(0, (size_t)-1), cb = xk_rangesz(0, MAXBITS), ol = xk_rangesz(0, MAXBITS); int r, valid = xk_choice(2); const unsigned char *cu;
    if (valid) { blk = (size_t)8 << xk_choice(sizeof(size_t) * 8 - 3); cb = xk_rangesz(0, 255); }
    cu = xk_in((cb + 7) / 8, "customization"); clear(); tree_init(blk); g_final = &h.finalNode; xk_watch(&h);
    prefix_items(cu, cb, blk);
    r = ALG(_Initialize)(&h, blk, ol, cu, cb);
    if (r != 0 && !g_failed) { xk_assert(!valid, "P06:" NAME(_Initialize) " accepts powers of two from 8"); xk_assert(xk_untouched(&h), "P06:refused " NAME(_Initialize) " leaves the instance alone"); return; }
    if (!valid && !g_failed) xk_assert(blk >= 8, "P06:" NAME(_Initialize) " refuses blocks smaller than a lane");
    CHK(NAME(_Initialize), r);
}
void client_custom(void) {        /* every customization */
    ParallelHash_Instance h; size_t cb = xk_rangesz(0, MAXBITS); int r; const unsigned char *cu = xk_in((cb + 7) / 8, "customization");
    clear(); tree_init(BLK); g_final = &h.finalNode; prefix_items(cu, cb, BLK);
    r = ALG(_Initialize)(&h, BLK, 64, cu, cb);
    CHK(NAME(_Initialize), r);
}
void client_partial(void) {       /* a last partial byte of the customization string */
    ParallelHash_Instance h; size_t n = xk_rangesz(0, 30); unsigned int k = 1 + xk_choice(7); unsigned char v = xk_range8(0, 255), *cu = xk_out(n + 1, "customization"); int r;
    cu[n] = v; clear(); tree_init(BLK); g_final = &h.finalNode;
    want(LENC, RB, 0); want(LENC, 96, 0); want(STR, 12, "ParallelHash"); want(LENC, 8 * n + k, 0); want(BUF, n, cu); want(BYTE, v % (1u << k), 0); want(PAD, 0, 0); want(LENC, BLK, 0); start();
    r = ALG(_Initialize)(&h, BLK, 64, cu, 8 * n + k); CHK(NAME(_Initialize), r);
}
#define BOUND xk_assume((uint64_t)g_leaves * BLK + g_lpos <= (uint64_t)1 << (sizeof(size_t) == 8 ? 56 : 43))   /* messages of up to 2^56 bytes, 2^43 on 32-bit targets */
static void history(size_t ol, int many) {   /* many: any number of updates, otherwise at most one */
    ParallelHash_Instance h; int fin = 0, r; const unsigned char *cu = xk_in(1, "customization"); uint64_t total = 0;
    clear(); tree_init(BLK); g_final = &h.finalNode; prefix_items(cu, 8, BLK);
    if (ALG(_Initialize)(&h, BLK, ol, cu, 8)) return;
    clear(); xk_watch(&h);
    while (1) {
        if (xk_choice(2)) {
            size_t n = xk_rangesz(0, MAXBITS / 16); const unsigned char *d = xk_in(n, "data");
            if (xk_choice(2)) { xk_watch(&h); r = ALG(_Update)(&h, d, 8 * n + xk_range32(1, 7)); REFUSED("P06", NAME(_Update) " with a partial byte", r, &h, 0); }
            else {
                BOUND;
                g_in = d; g_left = n;
                r = ALG(_Update)(&h, d, 8 * n); CHK(NAME(_Update), r); if (r) return;
            }
            clear(); xk_watch(&h);
            if (!many) break;
        } else break;
    }
    BOUND; clear(); g_last = 1; g_case = ol % 8;
    { unsigned char *o; if (ol) out(&o, ol); else { o = xk_out(0, "output"); xk_watch(o); }
      want(RENC, g_leaves + (g_lpos > 0), 0); want(RENC, ol, 0); start(); e_suf = 1; e_merge = 0x04;
      r = ALG(_Final)(&h, o); CHK(NAME(_Final), r); if (r) return; if (ol) lastbits(o, ol); }
    fin = ol ? 2 : 1;
    while (1) {
        clear(); xk_watch(&h);
        switch (xk_choice(4)) {
        case 0: { const unsigned char *d = xk_in(8, "data"); r = ALG(_Update)(&h, d, 64); REFUSED("P05", NAME(_Update) " after output", r, &h, 0); break; }
        case 1: { unsigned char *o; out(&o, ol ? ol : 8); r = ALG(_Final)(&h, o); REFUSED("P05", "second " NAME(_Final), r, &h, o); break; }
        case 2: { size_t bits = abits(); unsigned char *o; g_case = 8 + bits % 8; out(&o, bits); r = ALG(_Squeeze)(&h, o, bits);
            if (fin != 1) REFUSED("P05", NAME(_Squeeze) " out of phase", r, &h, o);
            else { CHK(NAME(_Squeeze), r); if (r) return; lastbits(o, bits); if (bits % 8) fin = 2; } break; }
        default: return;
        }
    }
}
void client_xof(void) { history(0, 1); }
void client_fixed(void) { history(8 * xk_rangesz(1, 31), 0); }
void client_long(void) { history(8 * xk_rangesz(0, MAXBITS / 8 - 1) + 3, 0); }
void client_bits(void) { history(8 * xk_rangesz(0, 30) + 1 + xk_choice(7), 0); }
void client_early(void) {         /* output before finalization, one-shot without output */
    ParallelHash_Instance h; int r; const unsigned char *cu = xk_in(1, "customization"), *d = xk_in(64, "data"); unsigned char *o;
    clear(); tree_init(BLK); g_final = &h.finalNode; prefix_items(cu, 8, BLK);
    if (ALG(_Initialize)(&h, BLK, 0, cu, 8)) return;
    clear(); xk_watch(&h); out(&o, 64); r = ALG(_Squeeze)(&h, o, 64); REFUSED("P05", NAME(_Squeeze) " before finalization", r, &h, o);
    clear(); out(&o, 0); r = ALG()(d, 512, BLK, o, 0, cu, 8); xk_assert(r != 0, "P06:" NAME() " without output is refused");
}
