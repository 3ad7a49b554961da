/* Xoodyak over the permutation: every operation is the prescribed sequence of Up and Down steps */
#include <string.h>
#include "xk.h"
#include "Xoodyak.h"
typedef Xoodoo_plain32_state S;
enum { ABSORB = 1, KEY, COUNTER, SQUEEZE, ENC, DEC };
static int g_op, g_keyed, g_first, g_down;  /* operation; keyed mode; no step of the operation yet; the operation starts after a Down */
static unsigned int g_cd, g_cu, g_r;        /* colours of the next Down and Up; bytes per block */
static const unsigned char *g_in; static size_t g_left;      /* bytes to enter */
static unsigned char *g_out; static size_t g_oleft;          /* bytes to produce */
static const unsigned char *g_mask;                          /* encryption, decryption: next input byte */
static const unsigned char *g_ob; static size_t g_on;        /* output bytes of this block */
static const unsigned char *g_k, *g_id; static size_t g_kn, g_idn;
static const unsigned char *g_cn; static size_t g_cnn;       /* counter to come after the key */
static int g_ratchet; static const unsigned char *g_sq;      /* ratchet: bytes squeezed, to be entered again */
void Xoodoo_StaticInitialize(void) {}
void Xoodoo_Initialize(S *s) { s->pos = 0; s->ph = 1; s->dom = 0; s->col = 0; s->opos = 0; }
/* the data of one Down step */
static void enter(S *s, const unsigned char *data, unsigned int offset, unsigned int n, int overwrite) {
    xk_assert(offset <= 48 && n <= 48 - offset, "P02:range inside the state");
    xk_read(data, n);
    if (n == 0) return;
    xk_assert(s->ph == 1 && offset == 0, "P18:data enter the state once per block, from its start");
    xk_assert(n <= g_r, "P18:a block is at most as long as the rate");
    if (g_op == KEY) {
        xk_assert(n == g_kn + g_idn + 1, "P18:the key block is the key, the identifier and its length");
        xk_assert(xk_equal(data, g_k, g_kn), "P18:the key block starts with the key");
        xk_assert(xk_equal(data + g_kn, g_id, g_idn), "P18:the identifier follows the key");
        xk_assert(data[g_kn + g_idn] == g_idn, "P18:the key block ends with the identifier's length");
        g_left = 0;
    } else if (g_op == ENC || g_op == DEC) {
        xk_assert(n == g_on, "P18:every encrypted byte enters the state");
        if (overwrite) { xk_assert(g_op == ENC, "P18:overwriting with the ciphertext is encryption"); xk_assert(data == g_ob, "P18:the state is overwritten with this block's ciphertext"); }
        else if (g_op == DEC) xk_assert(xk_same(data, g_ob) && data == g_ob, "P18:the decrypted block enters the state");
        else xk_assert((xk_same(data, g_in) && data == g_in) || xk_equal(data, g_in, n), "P18:the plaintext block enters the state");
        g_in += n; g_left -= n; g_on = 0;
    } else {
        xk_assert(!overwrite, "P18:input is added to the state");
        if (g_ratchet) xk_assert(xk_same(data, g_sq) && data == g_sq, "P18:the ratchet enters the bytes it squeezed");
        else { xk_assert(g_op == ABSORB || g_op == COUNTER, "P18:only input enters the state"); xk_assert(xk_same(data, g_in) && data == g_in, "P01+P18:absorbed bytes are the next input bytes"); g_in += n; }
        xk_assert(n <= g_left, "P01+P18:no more bytes absorbed than given");
        g_left -= n;
    }
    s->pos = n; s->ph = 2;
}
void Xoodoo_AddBytes(S *s, const uint8_t *data, unsigned int offset, unsigned int n) { enter(s, data, offset, n, 0); }
void Xoodoo_OverwriteBytes(S *s, const uint8_t *data, unsigned int offset, unsigned int n) { enter(s, data, offset, n, 1); }
void Xoodoo_OverwriteWithZeroes(S *s, unsigned int n) {
    xk_assert(n <= 48, "P02:range inside the state");
    xk_assert(g_ratchet && g_op == ABSORB && n == g_left && s->ph == 1, "P18:zeroes replace the ratchet's squeezed bytes only");
    g_left = 0; s->pos = n; s->ph = 2;
}
void Xoodoo_AddByte(S *s, unsigned char b, unsigned int offset) {
    xk_assert(offset < 48, "P02:AddByte offset inside the state");
    if (offset >= 48) return;
    if (offset == 47) { s->dom ^= b; return; }
    xk_assert(s->ph == 1 || s->ph == 2, "P18:each block is padded once");
    if (s->ph == 1) s->pos = 0;
    if (g_op == COUNTER || g_op == ABSORB || g_op == ENC || g_op == DEC) xk_assert(s->pos == g_r || g_left == 0, "P18:only the last block may be short");
    if (g_op == ABSORB || g_op == KEY || g_op == COUNTER) xk_assert(s->pos > 0 || g_first, "P18:no empty block after the first");
    if (g_op == ENC || g_op == DEC) xk_assert(!g_first && g_on == 0, "P18:a block is entered after it is encrypted");
    if (g_op == SQUEEZE) { xk_assert(!g_first && s->pos == 0 && s->opos == g_r && g_oleft > 0, "P18:output blocks are separated by empty blocks"); }
    xk_assert(b == 1 && offset == s->pos, "P18:the padding bit follows the block");
    s->col = g_keyed ? g_cd : (g_cd & 1); g_cd = 0; g_first = 0; s->ph = 3;
}
static void permute(S *s, unsigned int rounds) {
    xk_assert(rounds == 12, "P10+P18:number of rounds of this mode");
    xk_assert(s->ph == 3 || (s->ph == 1 && g_first && g_op != ABSORB && g_op != KEY && g_op != COUNTER), "P18:one permutation per block");
    if (g_op == KEY) { xk_assert(s->ph == 3 && g_cnn > 0, "P18:the key is the first block"); g_op = COUNTER; g_r = 1; g_in = g_cn; g_left = g_cnn; g_cn = 0; g_cnn = 0; g_first = 1; g_down = 1; }
    if (g_op == ABSORB || g_op == COUNTER) xk_assert((g_first && g_down) || (!g_first && g_left > 0), "P18:a permutation precedes a block only");
    if (g_op == ENC || g_op == DEC) xk_assert(g_left > 0 || (g_first && g_cu == 0x80), "P18:a permutation precedes a block only");
    if (g_op == SQUEEZE) xk_assert(g_oleft > 0 || g_first, "P18:a permutation precedes an output block only");
    xk_assert(s->dom == (s->col ^ (g_keyed ? g_cu : 0)), "P18:domain separation of the steps");
    s->dom = 0; s->col = 0; g_cu = 0; s->ph = 1; s->pos = 0; s->opos = 0; g_down = 0; g_on = 0;
    if (g_op == SQUEEZE || g_op == ENC || g_op == DEC) g_first = 0;
}
void Xoodoo_Permute_Nrounds(S *s, unsigned int n) { permute(s, n); }
void Xoodoo_Permute_6rounds(S *s) { permute(s, 6); }
void Xoodoo_Permute_12rounds(S *s) { permute(s, 12); }
static void leave(S *s, unsigned char *out, unsigned int offset, unsigned int n) {
    xk_assert(s->ph == 1 && !g_first, "P18:output comes right after the permutation");
    xk_assert(offset == 0 && s->opos == 0, "P18:output comes from the start of the state, once");
    xk_assert(n <= g_r, "P18:no more output per block than the rate");
    xk_assert(n == g_r || n == g_oleft, "P18:only the last block may be short");
    if (!g_ratchet) xk_assert(xk_same(out, g_out) && out == g_out, "P01+P18:output bytes are produced in order");
    xk_assert(n <= g_oleft, "P01+P18:no more bytes output than requested");
    s->opos = n; g_ob = out; g_on = n; g_oleft -= n;
    if (!g_ratchet) g_out += n; else { g_sq = out; xk_assert(n == 16, "P18:the ratchet squeezes 16 bytes"); g_op = ABSORB; g_r = 44; g_left = 16; g_first = 1; g_down = 0; }
}
void Xoodoo_ExtractBytes(const S *cs, uint8_t *data, unsigned int offset, unsigned int n) {
    xk_assert(offset <= 48 && n <= 48 - offset, "P02:range inside the state");
    xk_write(data, n);
    if (n == 0) return;
    xk_assert(g_op == SQUEEZE, "P18:only squeezing outputs state bytes");
    leave((S *)cs, data, offset, n);
}
void Xoodoo_ExtractAndAddBytes(const S *cs, const uint8_t *in, uint8_t *out, unsigned int offset, unsigned int n) {
    xk_assert(offset <= 48 && n <= 48 - offset, "P02:range inside the state");
    xk_read(in, n); xk_write(out, n);
    if (n == 0) return;
    xk_assert(g_op == ENC || g_op == DEC, "P18:only encryption and decryption add state bytes to input");
    xk_assert(xk_same(in, g_mask) && in == g_mask, "P01+P18:encrypted bytes are the next input bytes");
    g_mask += n; leave((S *)cs, out, offset, n);
}
#define DONE(f, ok) do { xk_assert(g_left == 0, "P01+P18:every input byte is absorbed"); xk_assert(g_oleft == 0, "P01+P18:every requested output byte is produced"); xk_assert(g_cd == 0 && g_cu == 0 && (ok), "P18:" f ": every prescribed step is made"); xk_reach(f); } while (0)
static void clear(Xoodyak_Instance *h) { g_op = 0; g_first = 1; g_down = 0; g_cd = 0; g_cu = 0; g_r = 0; g_in = 0; g_left = 0; g_out = 0; g_oleft = 0; g_mask = 0; g_ob = 0; g_on = 0; g_k = 0; g_kn = 0; g_id = 0; g_idn = 0; g_sq = 0; g_ratchet = 0; g_cn = 0; g_cnn = 0; h->state.pos = 0; h->state.opos = 0; }
static void begin(Xoodyak_Instance *h, int op, unsigned int r, unsigned int cd, unsigned int cu) { g_op = op; g_r = r; g_cd = cd; g_cu = cu; g_first = 1; g_down = h->state.ph == 3; }
static void absorb(Xoodyak_Instance *h) {
    size_t n = xk_rangesz(0, XK_MAXLEN); const unsigned char *d = xk_in(n, "X");
    begin(h, ABSORB, g_keyed ? 44 : 16, 0x03, 0); g_in = d; g_left = n;
    Xoodyak_Absorb(h, d, n); DONE("Xoodyak_Absorb", h->state.ph == 3); clear(h);
}
static void squeeze(Xoodyak_Instance *h, int key) {
    size_t n = xk_rangesz(0, XK_MAXLEN); unsigned char *o = xk_out(n, "Y");
    begin(h, SQUEEZE, g_keyed ? 24 : 16, 0, key ? 0x20 : 0x40); g_out = o; g_oleft = n;
    if (!g_keyed) g_cu = 0;
    if (key) { Xoodyak_SqueezeKey(h, o, n); DONE("Xoodyak_SqueezeKey", h->state.ph == 1 && !g_first); } else { Xoodyak_Squeeze(h, o, n); DONE("Xoodyak_Squeeze", h->state.ph == 1 && !g_first); }
    clear(h);
}
static void crypt(Xoodyak_Instance *h, int dec) {
    size_t n = xk_rangesz(0, XK_MAXLEN); const unsigned char *d = xk_in(n, "I"); unsigned char *o = xk_out(n, "O");
    begin(h, dec ? DEC : ENC, 24, 0, 0x80); g_in = d; g_mask = d; g_left = n; g_out = o; g_oleft = n;
    if (dec) { Xoodyak_Decrypt(h, d, o, n); DONE("Xoodyak_Decrypt", h->state.ph == 3 && g_on == 0); } else { Xoodyak_Encrypt(h, d, o, n); DONE("Xoodyak_Encrypt", h->state.ph == 3 && g_on == 0); }
    clear(h);
}
static void ratchet(Xoodyak_Instance *h) {
    begin(h, SQUEEZE, 24, 0, 0x10); g_ratchet = 1; g_oleft = 16;
    Xoodyak_Ratchet(h); DONE("Xoodyak_Ratchet", h->state.ph == 3 && g_op == ABSORB && !g_first); clear(h);
}
static void init(Xoodyak_Instance *h, int keyed) {
    size_t kn = keyed ? xk_rangesz(1, 43) : 0, idn = xk_rangesz(0, 43), cn = xk_rangesz(0, XK_MAXLEN); const unsigned char *k = xk_in(kn, "K"), *id = xk_in(idn, "ID"), *c = xk_in(cn, "counter");
    xk_assume(kn + idn <= 43);
    h->state.ph = 1; clear(h); g_keyed = keyed;
    if (keyed) { begin(h, KEY, 44, 0x02, 0); g_down = 0; g_k = k; g_kn = kn; g_id = id; g_idn = idn; g_cn = c; g_cnn = cn; g_left = 1; }
    Xoodyak_Initialize(h, k, kn, id, idn, c, cn);
    if (keyed) { xk_assert(g_cnn == 0, "P18:the counter follows the key"); DONE("Xoodyak_Initialize with a key", h->state.ph == 3 && (g_op == KEY || g_op == COUNTER) && !g_first); } else DONE("Xoodyak_Initialize", h->state.ph == 1 && h->state.dom == 0);
    clear(h);
}
void client_hash(void) {
    Xoodyak_Instance h;
    init(&h, 0);
    while (1) { if (xk_choice(2)) absorb(&h); else squeeze(&h, 0); }
}
void client_keyed(void) {
    Xoodyak_Instance h;
    init(&h, 1);
    while (1) switch (xk_choice(6)) { case 0: absorb(&h); break; case 1: squeeze(&h, 0); break; case 2: squeeze(&h, 1); break; case 3: crypt(&h, 0); break; case 4: crypt(&h, 1); break; case 5: ratchet(&h); break; }
}
