/* the byte sequence that is due at a sponge: encodings, strings, caller buffers, padding; then the suffix */
enum { LENC, RENC, BUF, STR, PAD, BYTE, RENC0 };
typedef struct { int kind; size_t v; const unsigned char *p; } ITEM;
#define ITEMS 12
static ITEM it[ITEMS]; static int ni, cur; static unsigned int idx;
static const unsigned char *g_in; static size_t g_left;      /* what is left of the current BUF */
static unsigned int e_merge, e_suffix; static int e_suf;
static unsigned char *g_out; static size_t g_oleft;
int g_case, g_ol, g_nopart;     /* case distinctions kept through joins */
static void want(int kind, size_t v, const void *p) { it[ni].kind = kind; it[ni].v = v; it[ni].p = p; ni++; }
static void start(void) { cur = 0; idx = 0; g_in = 0; g_left = 0; if (ni > 0 && it[0].kind == BUF) { g_in = it[0].p; g_left = it[0].v; } }
static void clear(void) { int i; for (i = 0; i < ITEMS; i++) { it[i].kind = 0; it[i].v = 0; it[i].p = 0; } ni = 0; start(); e_suf = 0; e_merge = 0; g_out = 0; g_oleft = 0; g_failed = 0; g_case = 0; }
static void next(void) { cur++; idx = 0; g_left = 0; g_in = 0; if (cur < ni && it[cur].kind == BUF) { g_in = it[cur].p; g_left = it[cur].v; } }
static unsigned int bytelen(size_t v) {
    if (v < 256) return 1; if (v < ((size_t)1 << 16)) return 2; if (v < ((size_t)1 << 24)) return 3;
#if SIZE_MAX == 0xffffffffu
    return 4;
#else
    if (v < ((size_t)1 << 32)) return 4; if (v < ((size_t)1 << 40)) return 5; if (v < ((size_t)1 << 48)) return 6; if (v < ((size_t)1 << 56)) return 7; return 8;
#endif
}
static void one(SP *s, unsigned char b) {
    ITEM *t; unsigned int m;
    xk_assert(cur < ni, "P01+P14:no byte beyond the prescribed encoding");
    if (cur >= ni) return;
    t = &it[cur];
    switch (t->kind) {
    case LENC: m = bytelen(t->v);
        if (idx == 0) xk_assert(b == m, "P14:left_encode starts with the shortest length"); else xk_assert(b == (t->v >> (8 * (m - idx))) % 256, "P14:left_encode: big-endian value bytes");
        if (idx == m) next(); else idx++; break;
    case RENC: m = bytelen(t->v);
        if (idx == m) { xk_assert(b == m, "P14:right_encode ends with the shortest length"); next(); } else { xk_assert(b == (t->v >> (8 * (m - 1 - idx))) % 256, "P14:right_encode: big-endian value bytes"); idx++; } break;
    case RENC0: m = t->v ? bytelen(t->v) : 0;   /* KangarooTwelve: no value byte for zero */
        if (idx == m) { xk_assert(b == m, "P14:right_encode ends with the shortest length"); next(); } else { xk_assert(b == (t->v >> (8 * (m - 1 - idx))) % 256, "P14:right_encode: big-endian value bytes"); idx++; } break;
    case STR: xk_assert(b == t->p[idx], "P09:name string of this function"); if (idx + 1 == t->v) next(); else idx++; break;
    case BYTE: xk_assert(b == t->v, "P01+P20:last partial byte holds the given bits, then zeros"); next(); break;
    default: xk_assert(0, "P01+P14:bytes follow the prescribed encoding");
    }
}
static void absorb_items(SP *s, const unsigned char *data, size_t n) {
    if (n == 0) return;
    while (cur < ni && it[cur].kind == BUF && !xk_same(data, g_in)) { xk_assert(g_left == 0, "P01+P14:every input byte is absorbed before what follows it"); next(); }
    if (cur < ni && it[cur].kind == PAD && s->state.pos == 0) { next(); 
        while (cur < ni && it[cur].kind == BUF && !xk_same(data, g_in)) { xk_assert(g_left == 0, "P01+P14:every input byte is absorbed before what follows it"); next(); } }
    if (cur < ni && it[cur].kind == PAD) {
        xk_assert(xk_known_eq(n, 1) ? data[0] == 0 : xk_filled(data, 0, n), "P14:padding bytes are zero");
        xk_assert(s->byteIOIndex >= s->state.pos && s->byteIOIndex + n <= RB, "P14:padding stays inside the block");
        xk_assert(s->byteIOIndex + n == RB, "P14:padding ends at the block boundary");
        next(); return;
    }
    xk_assert(s->byteIOIndex == s->state.pos, "P01:position in the block is left alone");
    if (cur < ni && it[cur].kind == BUF) {
        xk_assert(data == g_in, "P01+P14+P17:absorbed bytes are the next input bytes");
        if (cur + 1 < ni && it[cur + 1].kind == BYTE && xk_known_eq(n, g_left + 1)) {   /* whole bytes and a last partial byte at once */
            xk_assert(data[n - 1] == it[cur + 1].v, "P20:unused bits of a last partial byte are ignored");
            next(); next(); return;
        }
        xk_assert(n <= g_left, "P01+P14+P17:no more bytes absorbed than given");
        g_in += n; g_left -= n; return;
    }
    if (e_suf && cur == ni) {
        xk_assert(n == 1, "P01+P20:one merged byte at most");
        xk_assert(e_merge >= 256, "P01+P09+P20:merged byte only when the last bits and suffix fill it");
        xk_assert(data[0] == e_merge % 256, "P01+P09+P20:merged byte holds the last bits then the first suffix bits");
        e_merge = e_merge / 256; return;
    }
    { size_t i; for (i = 0; i < n; i++) one(s, data[i]); }
}
static void done(SP *s) {
    while (cur < ni && it[cur].kind == BUF) { xk_assert(g_left == 0, "P01:every input byte is absorbed"); next(); }
    if (cur < ni && it[cur].kind == PAD) { xk_assert(s->state.pos == 0, "P14:the encoding is padded to a whole block"); next(); }
    xk_assert(cur == ni, "P14:the prescribed encoding is complete");
}
