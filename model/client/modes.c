/* The modes of Kravatte and Xoofff (SANE, SANSE, WBC, WBC-AE) over the contract of Farfalle.
   The contract keeps its ghost state (which strings were compressed, output begun or ended) inside the instance, so that it follows copies of the instance. */
#include <string.h>
#include "xk.h"
#ifdef XOOFFF
#include "XoofffModes.h"
#define W 48
#define F_INST Xoofff_Instance
#define F_KEY Xoofff_MaskDerivation
#define F_IN Xoofff_Compress
#define F_OUT Xoofff_Expand
#define F_ONE Xoofff
#define F_INIT Xoofff_FlagInit
#define F_LAST Xoofff_FlagLastPart
#define F_SHORT Xoofff_FlagXoofffie
#define FF(x) Xoofff ## x
#define F xoofff
#define NM "Xoofff"
#else
#include "KravatteModes.h"
#define W 200
#define F_INST Kravatte_Instance
#define F_KEY Kravatte_MaskDerivation
#define F_IN Kra
#define F_OUT Vatte
#define F_ONE Kravatte
#define F_INIT KRAVATTE_FLAG_INIT
#define F_LAST KRAVATTE_FLAG_LAST_PART
#define F_SHORT KRAVATTE_FLAG_SHORT
#define FF(x) Kravatte_ ## x
#define F kravatte
#define NM "Kravatte_"
#endif
enum { STR = 1, OUT, KEY };
/* what the specification of the mode makes Farfalle do during the call under way */
static struct step { int kind; const unsigned char *p; size_t n; unsigned int b, last, app, al; unsigned int from, to; int ph; } g_s[6];
static unsigned int g_ns, g_j, g_t; static size_t g_pos; static int g_sched, g_open, g_failed;
static unsigned char g_tag[64]; static int g_tagged; static size_t g_tl;
#define MON(c, id) do { if (g_sched) xk_assert(c, id); } while (0)
#ifdef MODEL_FAIL
#define MAYFAIL do { if (!g_failed && xk_choice(2)) { g_failed = 1; return 1; } } while (0)
#else
#define MAYFAIL
#endif
static void hide(F_INST *v) { xk_havoc(v->k, W); xk_havoc(v->kRoll, W); xk_havoc(v->xAccu, W); xk_havoc(v->yAccu, W); xk_havoc(v->queue, W); }
int F_KEY(F_INST *v, const BitSequence *Key, BitLength bits) {
    xk_read(Key, (bits + 7) / 8);
    if (bits >= 8 * W) return 1;
    MAYFAIL;
    if (g_sched) { struct step *s = &g_s[g_j]; MON(g_j < g_ns && s->kind == KEY && xk_same(Key, s->p) && Key == s->p && bits == 8 * s->n + s->b, "P22:the mode uses the whole key"); g_j++; }
    hide(v); v->queueOffset = 1; v->phase = 1;
    return 0;
}
static unsigned int pow_2(unsigned int k) { return 1u << k; }
int F_IN(F_INST *v, const BitSequence *in, BitLength bits, int flags) {
    size_t n = bits / 8; unsigned int k = bits % 8, last = (flags & F_LAST) != 0;
    if (bits) xk_read(in, k ? n + 1 : n);
    if (!last && k) { g_failed = 1; MON(0, "P22:only the last part of a string may end inside a byte"); return 1; }
    MAYFAIL;
    if (flags & F_INIT) { v->queueOffset = 1; v->phase = 1; g_open = 0; }
    if (g_sched) {
        struct step *s = &g_s[g_j]; unsigned int T, V;
        MON(g_j < g_ns && s->kind == STR, "P22:strings enter the history in the prescribed order");
        T = s->b + s->al; 
        if (!g_open) { MON(v->queueOffset == s->from, "P22:a string follows the prescribed history"); g_open = 1; g_pos = 0; g_t = 0; if (s->b) s->last = s->p[s->n]; }
        if (bits != 0) {
            if (xk_same(in, s->p)) {
                MON(in == s->p + g_pos && g_t == 0, "P22:the history holds the data once, in order");
                MON(n <= s->n - g_pos, "P22:the history holds no more than the data");
                if (k) { MON(last && s->al == 0 && n == s->n - g_pos && k == s->b, "P22:the history holds the last bits of the data, then the appended bits"); g_t = T; }
                g_pos += n;
            } else {
                MON(g_pos == s->n, "P22:the history holds all whole bytes of the data first");
                MON(bits <= 8 && bits <= T - g_t, "P22:the history holds the last bits of the data, then the appended bits");
                V = s->last % pow_2(s->b) + s->app * pow_2(s->b);
                if (g_t) V = V / 256;
                if (bits == 8) MON(in[0] == V % 256, "P20+P22:the history holds the last bits of the data, then the appended bits");
                else MON(in[0] % pow_2(k) == V % pow_2(k), "P20+P22:the history holds the last bits of the data, then the appended bits");
                g_t += (unsigned int)bits;
            }
        }
        if (last) { MON(g_pos == s->n && g_t == T, "P22:a string of the history is complete when it ends"); g_j++; g_open = 0; v->queueOffset = s->to; }
    }
    if (last && !g_sched) v->queueOffset = 1;
    hide(v); v->phase = 1;
    return 0;
}
int F_OUT(F_INST *v, BitSequence *out, BitLength bits, int flags) {
    size_t n = bits / 8; unsigned int k = bits % 8, last = (flags & F_LAST) != 0;
    xk_write(out, k ? n + 1 : n);
    if (!last && k) { g_failed = 1; MON(0, "P22:only the last output may end inside a byte"); return 1; }
    MAYFAIL;
    if (k) out[n] = xk_range8(0, (unsigned char)(pow_2(k) - 1));
    if (g_sched) {
        struct step *s = &g_s[g_j];
        MON(g_j < g_ns && s->kind == OUT && !g_open, "P22:output is derived in the prescribed order");
        MON(v->queueOffset == s->from, "P22:output is derived from the prescribed history");
        MON((int)v->phase == s->ph, "P22:output starts where prescribed");
        MON(bits == 8 * s->n + s->b, "P22:output has the prescribed length");
        if (s->p) MON(xk_same(out, s->p) && out == s->p, "P22:output goes where prescribed");
        else { memcpy(g_tag, out, g_tl); g_tagged = 1; }
        g_j++;
    }
    hide(v); v->phase = last ? 3 : 2;
    return 0;
}
int F_ONE(F_INST *v, const BitSequence *in, BitLength inBits, BitSequence *out, BitLength outBits, int flags) {
    if (F_IN(v, in, inBits, flags | F_LAST) != 0) return 1;
    return F_OUT(v, out, outBits, flags | F_LAST);
}
#ifdef XOOFFF
#undef Xoofff_AddIs
void Xoofff_AddIs(unsigned char *output, const unsigned char *input, size_t bits) {
    size_t n = bits / 8; unsigned int k = bits % 8;
    if (bits == 0) return;
    xk_read(input, k ? n + 1 : n); xk_read(output, k ? n + 1 : n); xk_write(output, k ? n + 1 : n);
    if (k) output[n] = xk_range8(0, (unsigned char)(pow_2(k) - 1));
}
#endif
static void begin(void) { g_ns = 0; g_j = 0; g_open = 0; g_t = 0; g_pos = 0; g_tagged = 0; g_failed = 0; }
static struct step *put(int kind, const void *p, size_t n, unsigned int b, unsigned int last, unsigned int app, unsigned int al, unsigned int from, unsigned int to) {
    struct step *s = &g_s[g_ns++]; s->kind = kind; s->p = p; s->n = n; s->b = b; s->last = last; s->app = app; s->al = al; s->from = from; s->to = to; return s;
}
static void clear(void) { unsigned int i; for (i = 0; i < 6; i++) { g_s[i].kind = 0; g_s[i].p = 0; g_s[i].n = 0; g_s[i].last = 0; g_s[i].b = 0; g_s[i].app = 0; g_s[i].al = 0; g_s[i].from = 0; g_s[i].to = 0; g_s[i].ph = 0; } begin(); xk_havoc(g_tag, 64); }
/* a string of n bytes and b bits */
static unsigned char *str(size_t n, unsigned int b, unsigned int last, const char *name) { unsigned char *d = xk_out(b ? n + 1 : n, name); if (b) d[n] = (unsigned char)last; return d; }
#define BITS() (BITS_ALL ? (unsigned int)xk_choice(8) : 0)
#ifndef BITS_ALL
#define BITS_ALL 1
#endif
#define LEN() xk_rangesz(0, XK_MAXLEN / 8 - 64)
#define MODE SANE
#define SANE_TL 16
#define SANSE_TL 32
static void sane_init(FF(SANE_Instance) *v) {
    size_t kn = xk_rangesz(0, W - 2), nn = LEN(); unsigned int kb = xk_choice(2), nb = xk_choice(2), kl = xk_range8(0, 255), nl = xk_range8(0, 255); int r;
    unsigned char *key = str(kn, kb, kl, "Key"), *nonce = str(nn, nb, nl, "Nonce"), *tag = xk_out(SANE_TL, "tag");
    begin(); put(KEY, key, kn, kb, kl, 0, 0, 0, 0); put(STR, nonce, nn, nb, nl, 0, 0, 1, 2); put(OUT, tag, SANE_TL, 0, 0, 0, 0, 2, 0)->ph = 1;
    r = FF(SANE_Initialize)(v, key, 8 * kn + kb, nonce, 8 * nn + nb, tag);
    if (g_failed) { xk_assert(r != 0, "P08:SANE_Initialize reports an inner failure"); return; }
    xk_assert(r == 0, "P06:" NM "SANE_Initialize: succeeds"); xk_assert(g_j == g_ns, "P22:SANE_Initialize compresses the nonce and outputs a tag"); xk_reach(NM "SANE_Initialize");
    xk_assert(v->e == 0, "P22:the parity of the history starts at zero");
    clear();
}
static void sane_step(FF(SANE_Instance) *v, int unwrap) {
    size_t dn = LEN(), an = LEN(); unsigned int db = BITS(), ab = BITS(), dl = xk_range8(0, 255), al = xk_range8(0, 255), e = v->e, h = 2; int r, some;
    unsigned char *ad = str(an, ab, al, "AD"), *tag = xk_out(SANE_TL, "tag"), *in = str(dn, db, dl, unwrap ? "ciphertext" : "plaintext"), *out = xk_out(db ? dn + 1 : dn, unwrap ? "plaintext" : "ciphertext");
    v->F.queueOffset = 2; v->F.phase = 2; g_tl = SANE_TL;
    begin(); some = dn != 0 || db != 0;
    if (some) put(OUT, out, dn, db, 0, 0, 0, 2, 0)->ph = 2;
    if (an != 0 || ab != 0 || !some) { put(STR, ad, an, ab, al, 0 + 2 * e, 2, h, 3); h = 3; }
    if (some) { put(STR, unwrap ? in : out, dn, db, dl, 1 + 2 * e, 2, h, 4); h = 4; }
    put(OUT, unwrap ? 0 : tag, SANE_TL, 0, 0, 0, 0, h, 0)->ph = 1;
    if (unwrap) r = FF(SANE_Unwrap)(v, in, out, 8 * dn + db, ad, 8 * an + ab, tag);
    else r = FF(SANE_Wrap)(v, in, out, 8 * dn + db, ad, 8 * an + ab, tag);
    if (g_failed) { xk_assert(r != 0, "P08:SANE wrapping reports an inner failure"); begin(); return; }
    if (!unwrap) { xk_assert(r == 0, "P06:" NM "SANE_Wrap: succeeds"); xk_reach(NM "SANE_Wrap"); }
    xk_assert(g_j == g_ns, "P22:SANE compresses the metadata and the ciphertext and outputs a tag");
    if (db && r == 0) xk_assert(out[dn] < pow_2(db), "P20:unused bits of the last output byte are zero");
    if (unwrap) {
        if (r == 0) { xk_assert(g_tagged && xk_equal(g_tag, tag, SANE_TL), "P07:SANE_Unwrap succeeds only if the whole tag is equal"); xk_reach(NM "SANE_Unwrap"); }
        else { if (some) xk_assert(xk_filled(out, 0, db ? dn + 1 : dn), "P07:SANE_Unwrap clears the plaintext if the tag differs"); xk_reach(NM "SANE_Unwrap (tag differs)"); }
    }
    if (r == 0) { xk_assert(v->e == 1 - e, "P22:the parity of the history alternates"); xk_assert((int)v->F.phase == 2 && v->F.queueOffset == h, "P22:the history is kept for the next message"); }
    clear();
}
static void sanse_init(FF(SANSE_Instance) *v) {
    size_t kn = xk_rangesz(0, W - 2); unsigned int kb = xk_choice(2), kl = xk_range8(0, 255); int r; unsigned char *key = str(kn, kb, kl, "Key");
    begin(); put(KEY, key, kn, kb, kl, 0, 0, 0, 0);
    r = FF(SANSE_Initialize)(v, key, 8 * kn + kb);
    if (g_failed) { xk_assert(r != 0, "P08:SANSE_Initialize reports an inner failure"); return; }
    xk_assert(r == 0, "P06:" NM "SANSE_Initialize: succeeds"); xk_assert(g_j == g_ns, "P22:SANSE_Initialize derives the mask"); xk_reach(NM "SANSE_Initialize");
    xk_assert(v->e == 0, "P22:the parity of the history starts at zero"); clear();
}
static void sanse_step(FF(SANSE_Instance) *v, int unwrap) {
    size_t dn = LEN(), an = LEN(); unsigned int db = BITS(), ab = BITS(), dl = xk_range8(0, 255), al = xk_range8(0, 255), e = v->e, h = 2; int r, some;
    unsigned char *ad = str(an, ab, al, "AD"), *tag = xk_out(SANSE_TL, "tag"), *in = str(dn, db, dl, unwrap ? "ciphertext" : "plaintext"), *out = xk_out(db ? dn + 1 : dn, unwrap ? "plaintext" : "ciphertext");
    v->F.queueOffset = 2; v->F.phase = 2; g_tl = SANSE_TL;
    begin(); some = dn != 0 || db != 0;
    if (an != 0 || ab != 0 || !some) { put(STR, ad, an, ab, al, 0 + 2 * e, 2, h, 3); h = 3; }
    if (some && !unwrap) { put(STR, in, dn, db, dl, 2 + 4 * e, 3, h, 4); put(OUT, tag, SANSE_TL, 0, 0, 0, 0, 4, 0)->ph = 1; }
    if (some) { put(STR, tag, SANSE_TL, 0, 0, 3 + 4 * e, 3, h, 5); put(OUT, out, dn, db, 0, 0, 0, 5, 0)->ph = 1; }
    if (some && unwrap) put(STR, out, dn, db, 0, 2 + 4 * e, 3, h, 4);
    if (some) h = 4;
    if (!some || unwrap) put(OUT, unwrap ? 0 : tag, SANSE_TL, 0, 0, 0, 0, h, 0)->ph = 1;
    if (unwrap) r = FF(SANSE_Unwrap)(v, in, out, 8 * dn + db, ad, 8 * an + ab, tag);
    else r = FF(SANSE_Wrap)(v, in, out, 8 * dn + db, ad, 8 * an + ab, tag);
    if (g_failed) { xk_assert(r != 0, "P08:SANSE wrapping reports an inner failure"); begin(); return; }
    if (!unwrap) { xk_assert(r == 0, "P06:" NM "SANSE_Wrap: succeeds"); xk_reach(NM "SANSE_Wrap"); }
    xk_assert(g_j == g_ns, "P22:SANSE compresses the metadata, the plaintext and the tag and outputs a tag");
    if (db && r == 0) xk_assert(out[dn] < pow_2(db), "P20:unused bits of the last output byte are zero");
    if (unwrap) {
        if (r == 0) { xk_assert(g_tagged && xk_equal(g_tag, tag, SANSE_TL), "P07:SANSE_Unwrap succeeds only if the whole tag is equal"); xk_reach(NM "SANSE_Unwrap"); }
        else { if (some) xk_assert(xk_filled(out, 0, db ? dn + 1 : dn), "P07:SANSE_Unwrap clears the plaintext if the tag differs"); xk_reach(NM "SANSE_Unwrap (tag differs)"); }
    }
    if (r == 0) { xk_assert(v->e == 1 - e, "P22:the parity of the history alternates"); xk_assert(v->F.queueOffset == h, "P22:the history is kept for the next message"); }
    clear();
}
/* wide block cipher */
static void wbc(F_INST *v, int de, unsigned int b) {
    size_t n = LEN(), wn = LEN(); unsigned int wb = xk_choice(2), wl = xk_range8(0, 255), dl = xk_range8(0, 255); int r;
    unsigned char *tw = str(wn, wb, wl, "W"), *in = str(n, b, dl, de ? "ciphertext" : "plaintext"), *out = xk_out(b ? n + 1 : n, de ? "plaintext" : "ciphertext");
    begin();
    if (de) r = FF(WBC_Decipher)(v, in, out, 8 * n + b, tw, 8 * wn + wb); else r = FF(WBC_Encipher)(v, in, out, 8 * n + b, tw, 8 * wn + wb);
    if (g_failed) { xk_assert(r != 0, "P08:WBC reports an inner failure"); return; }
    xk_assert(r == 0, "P06:" NM "WBC: succeeds"); if (de) xk_reach(NM "WBC_Decipher"); else xk_reach(NM "WBC_Encipher");
    if (b) xk_assert(out[n] < pow_2(b), "P20:unused bits of the last output byte are zero");
}
static void wbcae(F_INST *v, int de, unsigned int b) {
    size_t n = LEN(), wn = LEN(); unsigned int wb = xk_choice(2), wl = xk_range8(0, 255), dl = xk_range8(0, 255); int r;
    unsigned char *tw = str(wn, wb, wl, "AD"), *in = str(n + 16, b, dl, de ? "ciphertext" : "plaintext"), *out = xk_out(b ? n + 17 : n + 16, de ? "plaintext" : "ciphertext");
    begin();
    if (de) r = FF(WBCAE_Decipher)(v, in, out, 8 * n + b, tw, 8 * wn + wb); else r = FF(WBCAE_Encipher)(v, in, out, 8 * n + b, tw, 8 * wn + wb);
    if (g_failed) { xk_assert(r != 0, "P08:WBC-AE reports an inner failure"); return; }
    if (!de) { xk_assert(r == 0, "P06:" NM "WBCAE_Encipher: succeeds"); xk_reach(NM "WBCAE_Encipher"); return; }
    if (r == 0) {
        xk_assert(xk_filled(out + n + (b != 0), 0, 16), "P07:WBCAE_Decipher succeeds only if the whole redundancy is zero"); xk_reach(NM "WBCAE_Decipher");
        if (b) xk_assert(out[n] < pow_2(b), "P07:WBCAE_Decipher: bits succeeds only if the whole redundancy is zero");
    } else { xk_assert(xk_filled(out, 0, b ? n + 17 : n + 16), "P07:WBCAE_Decipher clears the plaintext if the redundancy is wrong"); xk_reach(NM "WBCAE_Decipher (redundancy wrong)"); }
}
void client_sane_init(void) { FF(SANE_Instance) v; g_sched = 1; sane_init(&v); }
static void sane_any(FF(SANE_Instance) *v) { g_sched = 1; v->e = xk_choice(2); hide(&v->F); }
void client_sane_wrap(void) { FF(SANE_Instance) v; sane_any(&v); sane_step(&v, 0); }
void client_sane_unwrap(void) { FF(SANE_Instance) v; sane_any(&v); sane_step(&v, 1); }
void client_sanse_init(void) { FF(SANSE_Instance) v; g_sched = 1; sanse_init(&v); }
static void sanse_any(FF(SANSE_Instance) *v) { g_sched = 1; v->e = xk_choice(2); hide(&v->F); }
void client_sanse_wrap(void) { FF(SANSE_Instance) v; sanse_any(&v); sanse_step(&v, 0); }
void client_sanse_unwrap(void) { FF(SANSE_Instance) v; sanse_any(&v); sanse_step(&v, 1); }
#define WBC(f, s, d, lo, hi) void client_ ## f ## s(void) { F_INST v; g_sched = 0; hide(&v); d(&v, DE_ ## f, lo + xk_choice(hi - lo + 1)); }
#define DE_wbc_encipher 0
#define DE_wbc_decipher 1
#define DE_wbcae_encipher 0
#define DE_wbcae_decipher 1
WBC(wbc_encipher,, wbc, 0, 0) WBC(wbc_encipher, _bits, wbc, 1, 7)
WBC(wbc_decipher,, wbc, 0, 0) WBC(wbc_decipher, _bits, wbc, 1, 7)
WBC(wbcae_encipher,, wbcae, 0, 0) WBC(wbcae_encipher, _bits, wbcae, 1, 7)
WBC(wbcae_decipher,, wbcae, 0, 0) WBC(wbcae_decipher, _bits, wbcae, 1, 7)
