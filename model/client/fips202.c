/* SimpleFIPS202 and KeccakHash over the sponge contract */
#include "contract.h"
#include "SimpleFIPS202.h"
#include "KeccakHash.h"
static unsigned int e_rate, e_suffix;
int g_case;
static const unsigned char *g_in; static size_t g_left;
static unsigned char *g_out; static size_t g_oleft;
static unsigned int e_merge;     /* remaining bits (last partial byte and suffix), as a number */
void mon_init(SP *s, unsigned int rate, unsigned int capacity) {
    xk_assert(rate == e_rate, "P09:rate of this function");
    xk_assert(capacity == 1600 - e_rate, "P09:capacity of this function");
}
void mon_absorb(SP *s, const unsigned char *data, size_t n) {
    if (n == 0) return;
    if (xk_same(data, g_in)) {
        xk_assert(data == g_in, "P01:absorbed bytes are the next input bytes");
        xk_assert(n <= g_left, "P01:no more bytes absorbed than given");
        g_in += n; g_left -= n;
    } else {
        xk_assert(n == 1, "P01+P20:one merged byte at most");
        xk_assert(g_left == 0, "P01+P09+P20:merged byte after all whole bytes");
        xk_assert(e_merge >= 256, "P01+P09+P20:merged byte only when the last bits and suffix fill it");
        xk_assert(data[0] == e_merge % 256, "P01+P09+P20:merged byte holds the last bits then the first suffix bits");
        e_merge = e_merge / 256;
    }
}
void mon_suffix(SP *s, unsigned char d) {
    xk_assert(g_left == 0, "P01:suffix after all the input");
    xk_assert(d == e_suffix, "P09+P14+P20:domain suffix of this function");
}
void mon_squeeze(SP *s, unsigned char *data, size_t n) {
    if (n == 0) return;
    xk_assert(xk_same(data, g_out) && data == g_out, "P01:output bytes are produced in order");
    xk_assert(n <= g_oleft, "P01:no more bytes output than requested");
    g_out += n; g_oleft -= n;
}
#define DONE(f, r) do { \
    if (g_failed) xk_assert((r) != 0, "P08:" f ": inner failure is reported"); \
    else { xk_assert((r) == 0, "P06:" f ": succeeds"); xk_assert(g_left == 0, "P01:every input byte is absorbed"); xk_assert(g_oleft == 0, "P01:every requested output byte is produced"); } \
    xk_reach(f); } while (0)
static void setup(unsigned int rate, unsigned int suffix, size_t m) {
    size_t n = xk_rangesz(0, XK_MAXLEN);
    e_rate = rate; e_suffix = suffix;
    g_in = xk_in(n, "input"); g_left = n; g_out = xk_out(m, "output"); g_oleft = m; g_failed = 0;
}
void client_simple(void) {
    int r; size_t m = xk_rangesz(0, XK_MAXLEN);
    switch (xk_choice(6)) {
    case 0: setup(1344, 0x1F, m); r = SHAKE128(g_out, m, g_in, g_left); DONE("SHAKE128", r); break;
    case 1: setup(1088, 0x1F, m); r = SHAKE256(g_out, m, g_in, g_left); DONE("SHAKE256", r); break;
    case 2: setup(1152, 0x06, 28); r = SHA3_224(g_out, g_in, g_left); DONE("SHA3_224", r); break;
    case 3: setup(1088, 0x06, 32); r = SHA3_256(g_out, g_in, g_left); DONE("SHA3_256", r); break;
    case 4: setup(832, 0x06, 48); r = SHA3_384(g_out, g_in, g_left); DONE("SHA3_384", r); break;
    case 5: setup(576, 0x06, 64); r = SHA3_512(g_out, g_in, g_left); DONE("SHA3_512", r); break;
    }
}
/* one hash object: the named initializers, whole-byte updates, one last update with any number of bits */
static void history(Keccak_HashInstance *hp, int r, unsigned char suffix, unsigned int hl);
void client_hash_xof(void) {
    Keccak_HashInstance h; int r;
    g_left = 0; g_oleft = 0; g_in = 0; g_out = 0; g_failed = 0;
    if (xk_choice(2)) { e_rate = 1344; r = Keccak_HashInitialize_SHAKE128(&h); }
    else { e_rate = 1088; r = Keccak_HashInitialize_SHAKE256(&h); }
    history(&h, r, 0x1F, 0);
}
void client_hash_sha3(void) {
    Keccak_HashInstance h; int r; unsigned int hl;
    g_left = 0; g_oleft = 0; g_in = 0; g_out = 0; g_failed = 0;
    switch (xk_choice(4)) {
    case 0: e_rate = 1152; hl = 28; r = Keccak_HashInitialize_SHA3_224(&h); break;
    case 1: e_rate = 1088; hl = 32; r = Keccak_HashInitialize_SHA3_256(&h); break;
    case 2: e_rate = 832; hl = 48; r = Keccak_HashInitialize_SHA3_384(&h); break;
    default: e_rate = 576; hl = 64; r = Keccak_HashInitialize_SHA3_512(&h); break;
    }
    history(&h, r, 0x06, hl);
}
#define h (*hp)
static void history(Keccak_HashInstance *hp, int r, unsigned char suffix, unsigned int hl) {
    int fin = 0, part = 0;
    DONE("Keccak_HashInitialize", r);
    if (r) return;
    e_suffix = suffix; e_merge = suffix;
    while (1) {
        xk_watch(&h);
        g_failed = 0; g_left = 0; g_oleft = 0; g_in = 0; g_out = 0;
        switch (xk_choice(5)) {
        case 0: if (!part) {                         /* whole bytes */
            size_t n = xk_rangesz(0, XK_MAXLEN / 8);
            const unsigned char *d = xk_in(n, "data"); g_in = d; g_left = n;
            r = Keccak_HashUpdate(&h, d, 8 * n);
            if (fin) { xk_assert(r != 0, "P05:Keccak_HashUpdate after output is refused"); xk_assert(xk_untouched(&h), "P05:refused Keccak_HashUpdate has no effect"); }
            else DONE("Keccak_HashUpdate", r);
            if (!fin && r) return;
            } break;
        case 1: if (!part) {                         /* a last partial byte */
            size_t n = xk_rangesz(0, XK_MAXLEN / 8); unsigned int k = 1 + xk_choice(7); unsigned char v = xk_range8(0, 255); g_case = k;
            unsigned char *d = xk_out(n + 1, "data"); d[n] = v; g_in = d; g_left = n;
            if (!fin) { e_merge = (v % (1u << k)) + ((unsigned int)suffix << k); if (e_merge >= 256) e_suffix = e_merge / 256; else e_suffix = e_merge; part = 1; }
            r = Keccak_HashUpdate(&h, d, 8 * n + k);
            if (fin) { xk_assert(r != 0, "P05:Keccak_HashUpdate after output is refused"); xk_assert(xk_untouched(&h), "P05:refused Keccak_HashUpdate has no effect"); part = 1; }
            else { DONE("Keccak_HashUpdate (bits)", r); if (!g_failed) xk_assert(e_merge < 256, "P01+P20:a full merged byte is absorbed"); }
            if (!fin && r) return;
            } break;
        case 2: {
            unsigned char *o = xk_out(hl, "hash"); g_out = o; g_oleft = hl;
            xk_watch(o);
            r = Keccak_HashFinal(&h, o);
            if (fin) { xk_assert(r != 0, "P05:second Keccak_HashFinal is refused"); xk_assert(xk_untouched(&h) && xk_untouched(o), "P05:refused Keccak_HashFinal has no effect"); }
            else DONE("Keccak_HashFinal", r);
            if (!fin && r) return;
            fin = 1; part = 1;
            break; }
        case 3: if (fin) {
            size_t n = xk_rangesz(0, XK_MAXLEN / 8); unsigned int k = xk_choice(8);
            unsigned char *o = xk_out(n + 1, "out"); g_out = o; g_oleft = n;
            xk_watch(o);
            r = Keccak_HashSqueeze(&h, o, 8 * n + k);
            if (k) { xk_assert(r != 0, "P06:Keccak_HashSqueeze refuses partial bytes"); xk_assert(xk_untouched(&h) && xk_untouched(o), "P06:refused Keccak_HashSqueeze has no effect"); }
            else DONE("Keccak_HashSqueeze", r);
            if (g_failed) return;
            } break;
        default: return;
        }
    }
}
#undef h
void client_init(void) {
    Keccak_HashInstance h;
    unsigned int rate = xk_range32(0, 0xffffffffu), cap = xk_range32(0, 0xffffffffu), hl = xk_range32(0, 0xffffffffu);
    unsigned char sfx = xk_range8(0, 255);
    int r, valid = xk_choice(2);
    if (valid) { rate = 8 * xk_range32(1, 200); cap = 1600 - rate; sfx = xk_range8(1, 255); }
    e_rate = rate; g_failed = 0; g_left = g_oleft = 0;
    xk_watch(&h);
    r = Keccak_HashInitialize(&h, rate, cap, hl, sfx);
    if (g_failed) { xk_assert(r != 0, "P08:Keccak_HashInitialize: inner failure is reported"); return; }
    if (r != 0) { xk_assert(!valid, "P06:Keccak_HashInitialize accepts valid parameters"); xk_assert(xk_untouched(&h), "P06:refused Keccak_HashInitialize has no effect"); }
    else {
        xk_assert(sfx != 0, "P06:Keccak_HashInitialize refuses a zero suffix");
        xk_assert(rate > 0 && rate <= 1600 && rate % 8 == 0, "P06:Keccak_HashInitialize refuses invalid rates");
        xk_assert(cap == 1600 - rate, "P06:Keccak_HashInitialize refuses capacities that do not add up");
        xk_reach("initialize");
    }
}
