/* the parallel permutation interface, as used by Farfalle; TN, FP (prefix), FW (bytes), included per instance count */
#define FJ0(a, b, c) a ## b ## c
#define FJ(a, b, c) FJ0(a, b, c)
#define FF(x) FJ(FP, TN, x)
#ifndef FARFALLE_MON
typedef struct { uint64_t A[FW / 8]; } FF(_states);
#define FS FF(_states)
void FF(_InitializeAll)(FS *s);
void FF(_AddBytes)(FS *s, unsigned int i, const unsigned char *data, unsigned int offset, unsigned int length);
void FF(_AddLanesAll)(FS *s, const unsigned char *data, unsigned int laneCount, unsigned int laneOffset);
void FF(_OverwriteBytes)(FS *s, unsigned int i, const unsigned char *data, unsigned int offset, unsigned int length);
void FF(_OverwriteLanesAll)(FS *s, const unsigned char *data, unsigned int laneCount, unsigned int laneOffset);
void FF(_PermuteAll_6rounds)(FS *s);
void FF(_PermuteAll_12rounds)(FS *s);
void FF(_PermuteAll_24rounds)(FS *s);
void FF(_PermuteAll_4rounds)(FS *s);
void FF(_ExtractBytes)(const FS *s, unsigned int i, unsigned char *data, unsigned int offset, unsigned int length);
void FF(_ExtractAndAddBytes)(const FS *s, unsigned int i, const unsigned char *input, unsigned char *output, unsigned int offset, unsigned int length);
#else
#define FS FF(_states)
static unsigned char FF(_last)[1];
void FF(_InitializeAll)(FS *s) {}
static void FF(_begin)(void) {
    if (b_ph == 0 || b_ph == 6) { int i; if (b_ph == 6) MON(b_n == W, "P15:no output bytes are dropped"); b_ph = 1; b_n = 0; b_cnt = 0; b_cov = 0;
        b_fl[0] = b_fl[1] = b_fl[2] = b_fl[3] = b_fl[4] = b_fl[5] = b_fl[6] = b_fl[7] = b_fl[8] = b_fl[9] = b_fl[10] = b_fl[11] = b_fl[12] = b_fl[13] = b_fl[14] = b_fl[15] = 0; }
}
void FF(_OverwriteLanesAll)(FS *s, const unsigned char *data, unsigned int laneCount, unsigned int laneOffset) {
    unsigned int i;
    xk_read(data, (size_t)laneCount * LANE);
    MON(laneOffset == 0, "P15:the common part of the mask is given to every parallel block");
    FF(_begin)();
    MON(b_ph == 1 && b_cnt == 0 && b_cov == 0, "P15:the whole state is set before each block");
    if (g_op == G_COMPRESS) MON(xk_same(data, g_roll) && data == g_roll, "P15:an input block is masked with the rolled key");
    else MON(g_op == G_EXPAND && xk_same(data, g_y) && data == g_y, "P15:an output block starts from the rolled accumulator");
    b_cov = laneCount * LANE;
}
void FF(_OverwriteBytes)(FS *s, unsigned int i, const unsigned char *data, unsigned int offset, unsigned int n) {
    xk_read(data, n);
    MON(i < TN, "P02:parallel instance inside the state");
    if (i >= TN) return;
    FF(_begin)();
    MON(b_ph == 1 && !b_fl[i], "P15:each parallel block gets its mask once");
    MON(offset == b_cov && n == W - b_cov, "P15:the whole state is set before each block");
    if (b_cnt == 0) { if (g_op == G_COMPRESS) rolled(g_roll, 2); else rolled(g_y, 2); }
    else MON(xk_same(data, b_enc) && data != b_enc, "P15:parallel blocks get different masks");
    b_enc = data; b_fl[i] = 1; b_cnt++;
}
void FF(_AddLanesAll)(FS *s, const unsigned char *data, unsigned int laneCount, unsigned int laneOffset) {
    MON(g_op == G_COMPRESS && b_ph == 1 && b_cnt == TN, "P15:input enters masked blocks once");
    MON(laneCount * LANE == W && laneOffset * LANE == W, "P15:parallel blocks are adjacent whole blocks");
    xk_read(data, (size_t)TN * W);
    took(data, (size_t)TN * W, 1); b_ph = 2; b_n = W;
}
void FF(_AddBytes)(FS *s, unsigned int i, const unsigned char *data, unsigned int offset, unsigned int n) { xk_read(data, n); MON(0, "P15:parallel blocks are added together"); }
static void FF(_perm)(unsigned int rounds) {
    MON(rounds == 6, "P10+P15:number of rounds of this mode");
    MON((g_op == G_COMPRESS && b_ph == 2) || (g_op == G_EXPAND && b_ph == 1 && b_cnt == TN), "P15:one permutation per block");
    b_ph = 4; b_n = 0; b_cnt = 0;
    b_fl[0] = b_fl[1] = b_fl[2] = b_fl[3] = b_fl[4] = b_fl[5] = b_fl[6] = b_fl[7] = b_fl[8] = b_fl[9] = b_fl[10] = b_fl[11] = b_fl[12] = b_fl[13] = b_fl[14] = b_fl[15] = 0;
}
void FF(_PermuteAll_4rounds)(FS *s) { FF(_perm)(4); }
void FF(_PermuteAll_6rounds)(FS *s) { FF(_perm)(6); }
void FF(_PermuteAll_12rounds)(FS *s) { FF(_perm)(12); }
void FF(_PermuteAll_24rounds)(FS *s) { FF(_perm)(24); }
void FF(_ExtractBytes)(const FS *s, unsigned int i, unsigned char *data, unsigned int offset, unsigned int n) { xk_write(data, n); MON(0, "P15:parallel blocks are accumulated"); }
void FF(_ExtractAndAddBytes)(const FS *s, unsigned int i, const unsigned char *in, unsigned char *out, unsigned int offset, unsigned int n) {
    xk_read(in, n); xk_write(out, n);
    MON(i < TN, "P02:parallel instance inside the state");
    if (i >= TN) return;
    MON(b_ph == 4 && !b_fl[i] && offset == 0 && n == W, "P15:each parallel block is used once, whole");
    if (g_op == G_COMPRESS) MON(xk_same(out, g_x) && out == g_x && xk_same(in, g_x) && in == g_x, "P15:each compressed block is added to the accumulator once");
    else {
        MON(xk_same(in, g_roll) && in == g_roll, "P15:an output block is masked with the rolled key");
        MON(g_q == 0, "P15:queued output comes first");
        MON(xk_same(out, g_out) && out == g_out + (size_t)i * W, "P01+P15:output bytes are produced in order");
        MON((size_t)TN * W <= g_oleft, "P01+P15:no more bytes output than requested");
    }
    b_fl[i] = 1; b_cnt++;
    if (b_cnt == TN) { b_ph = 0; if (g_op == G_EXPAND) { g_out += (size_t)TN * W; g_oleft -= (size_t)TN * W; } b_cnt = 0; b_cov = 0; }
}
#endif
#undef FJ0
#undef FJ
#undef FF
#undef FS
