/* cSHAKE, KMAC and TupleHash over the sponge contract: the absorbed byte sequence is the one SP 800-185 prescribes */
#include "contract.h"
#include "SP800-185.h"
#ifndef SEC
#define SEC 128
#endif
#define J0(a, b, c) a ## b ## c
#define J(a, b, c) J0(a, b, c)
#define F(a, b) J(a, SEC, b)
#define S0(x) #x
#define S1(x) S0(x)
#define N(a, b) a S1(SEC) #b
#define RATE (1600 - 2 * SEC)
#define RB (RATE / 8)
#include "items.h"
void mon_init(SP *s, unsigned int rate, unsigned int capacity) {
    xk_assert(rate == RATE, "P09:rate of this function");
    xk_assert(capacity == 2 * SEC, "P09:capacity of this function");
}
void mon_absorb(SP *s, const unsigned char *data, size_t n) { absorb_items(s, data, n); }
void mon_suffix(SP *s, unsigned char d) {
    done(s);
    xk_assert(s->byteIOIndex == s->state.pos, "P01:position in the block is left alone");
    xk_assert(e_suf, "P01:the suffix comes at finalization");
    xk_assert(e_merge < 256, "P01+P20:a full merged byte is absorbed");
    xk_assert(d == e_merge, "P09+P14+P20:domain suffix of this function");
}
void mon_squeeze(SP *s, unsigned char *data, size_t n) {
    if (n == 0) return;
    xk_assert(xk_same(data, g_out) && data == g_out, "P01:output bytes are produced in order");
    xk_assert(n <= g_oleft, "P01:no more bytes output than requested");
    g_out += n; g_oleft -= n;
}
#ifdef MODEL_FAIL
#define CHK(f, r, s) do { if (g_failed) xk_assert((r) != 0, "P08:" f ": inner failure is reported"); xk_reach(f); } while (0)
#else
#define CHK(f, r, s) do { xk_assert((r) == 0, "P06:" f ": succeeds"); if (s) done(s); xk_assert(g_oleft == 0, "P01:every requested output byte is produced"); xk_reach(f); } while (0)
#endif
#define REFUSED(P, f, r, obj, buf) do { xk_assert((r) != 0, P ":" f " is refused"); xk_assert(xk_untouched(obj), P ":refused " f " leaves the instance alone"); if (buf) xk_assert(xk_untouched(buf), P ":refused " f " leaves the output alone"); } while (0)
/* ---- output of `bits` bits into a fresh buffer, through the given call */
static void out(unsigned char **o, size_t bits) { size_t n = (bits + 7) / 8; *o = xk_out(n, "output"); xk_watch(*o); g_out = *o; g_oleft = n; }
static void lastbits(const unsigned char *o, size_t bits) { if (bits % 8 != 0) xk_assert(o[bits / 8] < (1u << (bits % 8)), "P20:unused bits of the last output byte are cleared"); }
#define MAXBITS (XK_MAXLEN)
static size_t abits(void) { size_t n; unsigned int k; if (xk_choice(2)) { n = xk_rangesz(0, MAXBITS / 8 - 1); k = 0; } else { n = xk_rangesz(0, 30); k = xk_choice(8); } return 8 * n + k; }


#if defined(FN_cSHAKE)
#define ALG(b) F(cSHAKE, b)
#define NAME(b) N("cSHAKE", b)
#define INST cSHAKE_Instance
#define SPG(h) (&(h)->sponge)
#elif defined(FN_KMAC)
#define ALG(b) F(KMAC, b)
#define NAME(b) N("KMAC", b)
#define INST KMAC_Instance
#define SPG(h) (&(h)->csi.sponge)
#else
#define ALG(b) F(TupleHash, b)
#define NAME(b) N("TupleHash", b)
#define INST TupleHash_Instance
#define SPG(h) (&(h)->csi.sponge)
#endif
static void custom_items(const unsigned char *nm, size_t nb, const unsigned char *cu, size_t cb) {
    want(LENC, RB, 0); want(LENC, 8 * nb, 0); if (nm) want(BUF, nb, nm);
#ifdef FN_KMAC
    else want(STR, 4, "KMAC");
#else
    else want(STR, 9, "TupleHash");
#endif
    want(LENC, cb, 0); want(BUF, (cb + 7) / 8, cu); want(PAD, 0, 0);
}
static int update(INST *hp, int fin) {                         /* whole bytes */
            int r;
#if defined(FN_TupleHash)
            TupleElement t[2]; size_t k = xk_choice(2), i; g_case = k;
            for (i = 0; i < k; i++) { size_t n = xk_rangesz(0, !g_nopart ? MAXBITS / 8 : 31); t[i].input = xk_in(n, "element"); t[i].inputBitLen = 8 * n; want(LENC, 8 * n, 0); want(BUF, n, t[i].input); }
            start();
            r = ALG(_Update)(hp, t, k);
            if (k == 0) { xk_assert(r == 0, "P06:" NAME(_Update) ": succeeds"); return r; }
#else
            size_t n = xk_rangesz(0, MAXBITS / 8); const unsigned char *d = xk_in(n, "data"); want(BUF, n, d); start();
            r = ALG(_Update)(hp, d, 8 * n);
#endif
            if (fin) REFUSED("P05", NAME(_Update) " after output", r, hp, 0); else CHK(NAME(_Update), r, SPG(hp));
            if (!fin && r) return 1;
            return 0;
}
static int update_bits(INST *hp, int *fin, int *part, size_t ol, unsigned int suffix) {     /* a last partial byte */
            int r;
            size_t n = xk_rangesz(0, MAXBITS / 8); unsigned int k = 1 + xk_choice(7); unsigned char v = xk_range8(0, 255); unsigned char *d = xk_out(n + 1, "data"); d[n] = v;
#if defined(FN_TupleHash)
            TupleElement t[2]; int two = xk_choice(2);
            if (two) { size_t m = xk_rangesz(0, 31); t[0].input = xk_in(m, "element"); t[0].inputBitLen = 8 * m; want(LENC, 8 * m, 0); want(BUF, m, t[0].input); start(); }
            t[two].input = d; t[two].inputBitLen = 8 * n + k;
            r = ALG(_Update)(hp, t, two + 1);
            REFUSED("P06", NAME(_Update) " with a partial byte", r, hp, 0);
#elif defined(FN_KMAC)
            r = ALG(_Update)(hp, d, 8 * n + k);
            REFUSED("P06", NAME(_Update) " with a partial byte", r, hp, 0);
#else
            want(BUF, n, d); start();
            r = ALG(_Update)(hp, d, 8 * n + k);
            if (*fin) REFUSED("P05", NAME(_Update) " after output", r, hp, 0);
            else { CHK(NAME(_Update) " (bits)", r, SPG(hp)); if (r) return 1; *part = 1;
                { const unsigned char *e = xk_in(1, "more"); clear(); xk_watch(hp); r = ALG(_Update)(hp, e, 8); REFUSED("P05+P06", NAME(_Update) " after a partial byte", r, hp, 0); }
                { unsigned char *o; if (ol) { out(&o, ol); } else { o = xk_out(0, "output"); xk_watch(o); }     /* only finalization is left */
                  e_suf = 1; e_merge = (v % (1u << k)) + (suffix << k); r = ALG(_Final)(hp, o); CHK(NAME(_Final) " (bits)", r, SPG(hp)); if (r) return 1; if (ol) lastbits(o, ol); *fin = ol ? 2 : 1; } }
#endif
            return 0;
}
static void history(INST *hp, size_t ol, unsigned int suffix) {
    int fin = 0, part = 0, r; 
    while (1) {
        g_case = 0; xk_watch(hp);
        clear();
        switch (xk_choice(5)) {
        case 0: if (!part && update(hp, fin)) return; break;
        case 1: if (!part && !g_nopart && update_bits(hp, &fin, &part, ol, suffix)) return; break;
        case 2: {
            unsigned char *o; 
            if (ol) { out(&o, ol); } else { o = xk_out(0, "output"); xk_watch(o); }
#ifndef FN_cSHAKE
            want(RENC, ol, 0); start();
#endif
            e_suf = 1; e_merge = suffix;
            r = ALG(_Final)(hp, o);
            if (fin) REFUSED("P05", "second " NAME(_Final), r, hp, o); else { CHK(NAME(_Final), r, SPG(hp)); if (r) return; if (ol) lastbits(o, ol); }
            if (!fin) fin = ol ? 2 : 1;
            part = 1;
            } break;
        case 3: {
            size_t bits = abits(); unsigned char *o; g_case = 8 + bits % 8;
            out(&o, bits);
            r = ALG(_Squeeze)(hp, o, bits);
            if (fin != 1) REFUSED("P05", NAME(_Squeeze) " out of phase", r, hp, o);
            else { CHK(NAME(_Squeeze), r, SPG(hp)); if (r) return; lastbits(o, bits); if (bits % 8) fin = 2; }
            } break;
        default: return;
        }
        clear();
    }
}
static size_t outlen(int fixed) { size_t l = 0; g_nopart = 0; if (fixed) { l = fixed == 1 ? 8 * xk_rangesz(1, MAXBITS / 8) : 8 * xk_rangesz(0, 30) + 1 + xk_choice(7); g_nopart = 1; } g_ol = l % 8; return l; }
/* initialization: every parameter */
#if defined(FN_cSHAKE)
static int init(INST *h, size_t ol, size_t nb, size_t cb) {
    unsigned int k = xk_choice(2) ? xk_range32(1, 7) : 0; int r;
    const unsigned char *nm = xk_in(nb + 1, "name"), *cu = xk_in((cb + 7) / 8, "customization");
    clear(); xk_watch(h);
    if (nb + cb + k > 0) { custom_items(nm, nb, cu, cb); start(); }
    r = ALG(_Initialize)(h, ol, nm, 8 * nb + k, cu, cb);
    if (k) { REFUSED("P06", NAME(_Initialize) " with a name of partial bytes", r, h, 0); return 1; }
    CHK(NAME(_Initialize), r, SPG(h));
    return r;
}
void client_init(void) { INST h; init(&h, xk_rangesz(0, MAXBITS), xk_rangesz(0, MAXBITS / 8 - 1), xk_rangesz(0, 255)); }
void client_init2(void) { INST h; init(&h, xk_rangesz(0, MAXBITS), xk_rangesz(0, 31), xk_rangesz(0, MAXBITS)); }
void client_partial(void) {       /* a last partial byte of the customization string */
    INST h; size_t n = xk_rangesz(0, 30); unsigned int k = 1 + xk_choice(7); unsigned char v = xk_range8(0, 255), *cu = xk_out(n + 1, "customization"); const unsigned char *e = xk_in(0, "empty"); int r;
    cu[n] = v; clear(); want(LENC, RB, 0); want(LENC, 0, 0); want(LENC, 8 * n + k, 0); want(BUF, n, cu); want(BYTE, v % (1u << k), 0); want(PAD, 0, 0); start();
    r = ALG(_Initialize)(&h, 0, e, 0, cu, 8 * n + k); CHK(NAME(_Initialize), r, SPG(&h));
}
/* streaming, from an object initialized without and with a name or customization */
void client_plain(void) { INST h; size_t ol = outlen(0); const unsigned char *e = xk_in(0, "empty"); clear(); if (ALG(_Initialize)(&h, ol, e, 0, e, 0)) return; history(&h, ol, 0x1F); }
void client_plain_fixed(void) { INST h; size_t ol = outlen(1); const unsigned char *e = xk_in(0, "empty"); clear(); if (ALG(_Initialize)(&h, ol, e, 0, e, 0)) return; history(&h, ol, 0x1F); }
void client_plain_bits(void) { INST h; size_t ol = outlen(2); const unsigned char *e = xk_in(0, "empty"); clear(); if (ALG(_Initialize)(&h, ol, e, 0, e, 0)) return; history(&h, ol, 0x1F); }
void client_custom(void) { INST h; size_t ol = outlen(0), cb = xk_rangesz(1, 128); const unsigned char *e = xk_in(0, "empty"), *cu = xk_in((cb + 7) / 8, "customization"); clear(); custom_items(e, 0, cu, cb); start(); if (ALG(_Initialize)(&h, ol, e, 0, cu, cb)) return; history(&h, ol, 0x04); }
void client_custom_fixed(void) { INST h; size_t ol = outlen(1), cb = xk_rangesz(1, 128); const unsigned char *e = xk_in(0, "empty"), *cu = xk_in((cb + 7) / 8, "customization"); clear(); custom_items(e, 0, cu, cb); start(); if (ALG(_Initialize)(&h, ol, e, 0, cu, cb)) return; history(&h, ol, 0x04); }
void client_custom_bits(void) { INST h; size_t ol = outlen(2), cb = xk_rangesz(1, 128); const unsigned char *e = xk_in(0, "empty"), *cu = xk_in((cb + 7) / 8, "customization"); clear(); custom_items(e, 0, cu, cb); start(); if (ALG(_Initialize)(&h, ol, e, 0, cu, cb)) return; history(&h, ol, 0x04); }
#elif defined(FN_KMAC)
static int init(INST *h, size_t ol, int mode) {
    size_t cb = 8, kb, kn = 16; unsigned int k = 0; unsigned char v = xk_range8(0, 255); int r; unsigned char *key; const unsigned char *cu;
    switch (mode) {
    case 1: kn = xk_rangesz(0, MAXBITS / 8 - 1); k = 3; break;          /* any key length, with unused bits */
    case 2: kn = xk_rangesz(0, 30); k = xk_choice(8); break;            /* all numbers of unused bits */
    case 3: cb = xk_rangesz(0, MAXBITS); break;                         /* any customization string */
    case 4: kn = xk_rangesz(0, MAXBITS / 8 - 1); break;                 /* any key length in bytes */
    }
    kb = 8 * kn + k;
    cu = xk_in((cb + 7) / 8, "customization"); key = xk_out(kn + (k > 0), "key"); if (k) key[kn] = v;
    clear(); g_case = k;
    custom_items(0, 4, cu, cb); want(LENC, RB, 0); want(LENC, kb, 0); want(BUF, kn, key); if (k) want(BYTE, v % (1u << k), 0); want(PAD, 0, 0); start();
    r = ALG(_Initialize)(h, key, kb, ol, cu, cb);
    CHK(NAME(_Initialize), r, SPG(h));
    return r;
}
void client_init1(void) { INST h; init(&h, xk_rangesz(0, MAXBITS), 1); }
void client_init2(void) { INST h; init(&h, xk_rangesz(0, MAXBITS), 2); }
void client_init3(void) { INST h; init(&h, xk_rangesz(0, MAXBITS), 3); }
void client_init4(void) { INST h; init(&h, xk_rangesz(0, MAXBITS), 4); }
void client_stream(void) { INST h; size_t ol = outlen(0); if (init(&h, ol, 0)) return; history(&h, ol, 0x04); }
void client_stream_fixed(void) { INST h; size_t ol = outlen(1); if (init(&h, ol, 0)) return; history(&h, ol, 0x04); }
void client_stream_bits(void) { INST h; size_t ol = outlen(2); if (init(&h, ol, 0)) return; history(&h, ol, 0x04); }
#else
static int init(INST *h, size_t ol, int small) {
    size_t cb = small ? 8 : xk_rangesz(0, MAXBITS); int r; const unsigned char *cu = xk_in((cb + 7) / 8, "customization");
    clear(); custom_items(0, 9, cu, cb); start();
    r = ALG(_Initialize)(h, ol, cu, cb);
    CHK(NAME(_Initialize), r, SPG(h));
    return r;
}
void client_init(void) { INST h; init(&h, xk_rangesz(0, MAXBITS), 0); }
void client_stream(void) { INST h; size_t ol = outlen(0); if (init(&h, ol, 1)) return; history(&h, ol, 0x04); }
void client_stream_fixed(void) { INST h; size_t ol = outlen(1); if (init(&h, ol, 1)) return; history(&h, ol, 0x04); }
void client_stream_bits(void) { INST h; size_t ol = outlen(2); if (init(&h, ol, 1)) return; history(&h, ol, 0x04); }
#endif
#ifdef FN_TupleHash
void client_two(void) {       /* two elements in one call */
    INST h; TupleElement t[2]; size_t m = xk_rangesz(0, 31), n = xk_rangesz(0, MAXBITS / 8); int r;
    if (init(&h, 64, 1)) return;
    t[0].input = xk_in(m, "element0"); t[0].inputBitLen = 8 * m; t[1].input = xk_in(n, "element1"); t[1].inputBitLen = 8 * n;
    clear(); want(LENC, 8 * m, 0); want(BUF, m, t[0].input); want(LENC, 8 * n, 0); want(BUF, n, t[1].input); start();
    r = ALG(_Update)(&h, t, 2); CHK(NAME(_Update) " of two elements", r, SPG(&h));
}
#endif
/* the one-shot function is the streaming sequence with a fixed output length */
static void oneshot(size_t cb) {
    size_t ol = abits(), n = xk_rangesz(0, MAXBITS / 8); unsigned char *o; int r; const unsigned char *d = xk_in(n, "data"), *cu = xk_in((cb + 7) / 8, "customization");
    const unsigned char *e = xk_in(0, "empty");
    clear(); g_ol = ol % 8; out(&o, ol); e_suf = 1; e_merge = 0x04;
#if defined(FN_cSHAKE)
    if (cb > 0) custom_items(e, 0, cu, cb); else e_merge = 0x1F;
    want(BUF, n, d); start();
    r = ALG()(d, 8 * n, o, ol, e, 0, cu, cb);
#elif defined(FN_KMAC)
    { const unsigned char *key = xk_in(16, "key"); custom_items(0, 4, cu, cb); want(LENC, RB, 0); want(LENC, 128, 0); want(BUF, 16, key); want(PAD, 0, 0); want(BUF, n, d); want(RENC, ol, 0); start();
    r = ALG()(key, 128, d, 8 * n, o, ol, cu, cb); }
#else
    { TupleElement t[1]; t[0].input = d; t[0].inputBitLen = 8 * n; custom_items(0, 9, cu, cb); want(LENC, 8 * n, 0); want(BUF, n, d); want(RENC, ol, 0); start();
    r = ALG()(t, 1, o, ol, cu, cb); }
#endif
    if (ol == 0) { xk_assert(r != 0, "P06:" NAME() " without output is refused"); return; }
    CHK(NAME(), r, (SP *)0);
    if (r == 0) lastbits(o, ol);
}
void client_oneshot(void) { oneshot(0); }
void client_oneshot2(void) { oneshot(xk_rangesz(1, 200)); }
