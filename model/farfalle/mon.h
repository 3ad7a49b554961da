/* Farfalle (Kravatte, Xoofff) over its permutation: which block of which string enters, and where the result goes.
   Included once, by client/farfalle.c, with W (bytes per block) and the names of the instance set. */
enum { G_NONE, G_MASK, G_COMPRESS, G_MID, G_EXPAND };
static int g_op;                                      /* what the permutation may be used for now */
static unsigned char *g_k, *g_roll, *g_x, *g_y, *g_queue;   /* the instance's key, rolled key, accumulators and queue */
static unsigned char g_kcopy[W], g_snap[W]; static int g_kc;/* last mask used; queue at the start of the call */
static int b_ph; static unsigned int b_n;             /* block under way: 0 none, 1 mask, 2 data, 3 padded, 4 permuted, 6 output; bytes entered or output */
static unsigned char b_fl[16]; static unsigned int b_cnt, b_cov;   /* parallel: instances overwritten and done, bytes common to all */
static const unsigned char *g_in; static size_t g_left; static unsigned int g_bits, g_last; static int g_final, g_padded;
static unsigned int g_q, g_qn; static int g_case, g_qs;      /* queue: bytes (compression) or position (expansion); bytes of it in this block */
static unsigned char *g_out; static size_t g_oleft;
#define MON(c, id) xk_assert(c, id)
static void mask(const unsigned char *p) {
    MON(b_ph == 0 || b_ph == 6, "P15:a block is finished before the next one starts");
    if (b_ph == 6) MON(b_n == W, "P15:no output bytes are dropped");
    b_ph = 1; b_n = 0;
    if (g_op == G_COMPRESS) MON(xk_same(p, g_roll) && p == g_roll, "P15:an input block is masked with the rolled key");
    else if (g_op == G_EXPAND) MON(xk_same(p, g_y) && p == g_y, "P15:an output block starts from the rolled accumulator");
    else MON(0, "P15:block masks belong to compression and expansion");
}
static void rolled(const unsigned char *p, int kind) {    /* kind: 1 mask about to be used, 2 rolled past a parallel group */
    if (g_kc == kind) MON(!xk_equal(g_kcopy, p, W), "P15:the mask is rolled between blocks");
    memcpy(g_kcopy, p, W); g_kc = kind;
}
static void f_overwrite(const unsigned char *data, unsigned int offset, unsigned int n) {
    MON(offset == 0 && n == W, "P15:the whole state is set before each block");
    if (g_op == G_MASK) { MON(b_ph == 0 && xk_same(data, g_k) && data == g_k, "P15:the mask is derived from the padded key"); b_ph = 3; return; }
    if (g_op == G_MID) { MON(b_ph == 0 && xk_same(data, g_x) && data == g_x, "P15:expansion starts from the accumulator"); b_ph = 3; return; }
    mask(data); rolled(data, 1);
}
static void took(const unsigned char *data, size_t n, int fast) {   /* n bytes of whole blocks, or the last block */
    if (!fast && xk_same(data, g_queue)) {
        size_t m = n - g_q;
        MON(data == g_queue && g_q > 0 && n >= g_q, "P15:a block taken from the queue starts with what was queued");
        MON(xk_equal(data, g_snap, g_q), "P15:queued bytes are kept until their block is full");
        MON(m <= g_left, "P01+P15:no more bytes absorbed than given");
        MON(xk_equal(data + g_q, g_in, m), "P01+P15:the queue is completed with the next input bytes");
        g_in += m; g_left -= m; g_q = 0; g_qs = 1;
    } else {
        MON(g_q == 0, "P15:queued bytes come first");
        MON(xk_same(data, g_in) && data == g_in, "P01+P15:absorbed bytes are the next input bytes");
        MON(n <= g_left, "P01+P15:no more bytes absorbed than given");
        g_in += n; g_left -= n; g_qs = 0;
    }
}
static void f_add(const unsigned char *data, unsigned int offset, unsigned int n) {
    xk_read(data, n);
    if (n == 0) return;
    MON(g_op == G_COMPRESS && b_ph == 1 && offset == 0, "P15:input enters a masked block once, from its start");
    MON(n <= W, "P15:a block is at most as long as the state");
    took(data, n, 0);
    if (n != W) MON(g_final && g_left == 0, "P15:only the last block may be short");
    b_n = n; b_ph = 2;
}
static void f_addbyte(unsigned char b, unsigned int offset) {
    MON(g_op == G_COMPRESS && (b_ph == 1 || b_ph == 2), "P15:only input blocks are padded");
    MON(g_final && g_left == 0, "P15:only the last block is padded");
    if (b_ph == 1 && g_q != 0) took(g_queue, g_q, 0);
    MON(offset == b_n && b_n < W, "P15:the padding bit follows the last bit");
    MON(!g_padded, "P15:a string is padded once");
    if (g_bits == 0) MON(b == 1, "P15:the padding bit follows the last bit");
    else if (g_qs) { MON(b >= 1u << g_bits && b < 2u << g_bits, "P20:unused bits of a last partial byte are ignored"); }
    else MON(b == g_last % (1u << g_bits) + (1u << g_bits), "P15+P20:last partial byte holds the given bits, then the padding bit");
    g_padded = 1; b_ph = 3;
}
static void f_perm(unsigned int rounds) {
    unsigned int i;
    MON(rounds == 6, "P10+P15:number of rounds of this mode");
    if (g_op == G_COMPRESS) MON((b_ph == 2 && b_n == W) || b_ph == 3, "P15:one permutation per block");
    else if (g_op == G_EXPAND) MON(b_ph == 1, "P15:one permutation per block");
    else MON(b_ph == 3, "P15:one permutation per block");
    b_ph = 4; b_n = 0;
}
static void f_extract(unsigned char *data, unsigned int offset, unsigned int n) {
    xk_write(data, n);
    MON(b_ph == 4 && offset == 0 && n == W, "P15:the permuted block is used whole");
    if (g_op == G_MASK) MON(xk_same(data, g_k) && data == g_k, "P15:the derived mask replaces the key");
    else { MON(g_op == G_MID && xk_same(data, g_y) && data == g_y, "P15:the permuted accumulator starts the expansion"); g_op = G_EXPAND; }
    b_ph = 0;
}
static void f_extadd(const unsigned char *in, unsigned char *out, unsigned int offset, unsigned int n) {
    xk_read(in, n); xk_write(out, n);
    if (n == 0) return;
    if (g_op == G_COMPRESS) {
        MON(b_ph == 4 && offset == 0 && n == W && xk_same(out, g_x) && out == g_x && xk_same(in, g_x) && in == g_x, "P15:each compressed block is added to the accumulator once");
        b_ph = 0; return;
    }
    MON(g_op == G_EXPAND, "P15:only compression and expansion add blocks");
    MON(xk_same(in, g_roll) && in == g_roll + offset, "P15:an output block is masked with the rolled key");
    if (b_ph == 4) {
        MON(offset == 0 && n <= W, "P15:an output block is used from its start");
        MON(g_q == 0, "P15:queued output comes first");
        MON(xk_same(out, g_out) && out == g_out, "P01+P15:output bytes are produced in order");
        MON(n <= g_oleft, "P01+P15:no more bytes output than requested");
        MON(n == W || n == g_oleft, "P15:only the last block may be short");
        g_out += n; g_oleft -= n; b_n = n; b_ph = 6;
    } else {
        MON(b_ph == 6 && b_n < W && offset == b_n && n == W - b_n, "P15:the rest of the last block is queued");
        MON(xk_same(out, g_queue) && out == g_queue + offset, "P15:the rest of the last block is queued");
        g_q = b_n; b_ph = 0; b_n = 0;
    }
}
