/* contract model of the parallel permutation interface, as used for the leaves of tree hashing.
   Included by KeccakP-1600-times{2,4,8}-SnP.h with TN set. */
#include <stddef.h>
#include <stdint.h>
#define TJ0(a, b, c) a ## b ## c
#define TJ(a, b, c) TJ0(a, b, c)
#define TF(x) TJ(KeccakP1600times, TN, x)
typedef struct { uint64_t A[25]; const unsigned char *base; size_t abs; unsigned int pend, done, cnt; unsigned char fl[8]; } TF(_states);
#define TS TF(_states)
void TF(_InitializeAll)(TS *s);
void TF(_AddByte)(TS *s, unsigned int i, unsigned char byte, unsigned int offset);
void TF(_AddBytes)(TS *s, unsigned int i, const unsigned char *data, unsigned int offset, unsigned int length);
void TF(_AddLanesAll)(TS *s, const unsigned char *data, unsigned int laneCount, unsigned int laneOffset);
void TF(_OverwriteBytes)(TS *s, unsigned int i, const unsigned char *data, unsigned int offset, unsigned int length);
void TF(_OverwriteLanesAll)(TS *s, const unsigned char *data, unsigned int laneCount, unsigned int laneOffset);
void TF(_OverwriteWithZeroes)(TS *s, unsigned int i, unsigned int byteCount);
void TF(_PermuteAll_4rounds)(TS *s);
void TF(_PermuteAll_6rounds)(TS *s);
void TF(_PermuteAll_12rounds)(TS *s);
void TF(_PermuteAll_24rounds)(TS *s);
void TF(_ExtractBytes)(const TS *s, unsigned int i, unsigned char *data, unsigned int offset, unsigned int length);
void TF(_ExtractLanesAll)(const TS *s, unsigned char *data, unsigned int laneCount, unsigned int laneOffset);
size_t TJ(KeccakF1600times, TN, _FastLoop_Absorb)(TS *s, unsigned int laneCount, unsigned int laneOffsetParallel, unsigned int laneOffsetSerial, const unsigned char *data, size_t dataByteLen);
size_t TF(_12rounds_FastLoop_Absorb)(TS *s, unsigned int laneCount, unsigned int laneOffsetParallel, unsigned int laneOffsetSerial, const unsigned char *data, size_t dataByteLen);
void TF(_KT128ProcessLeaves)(const unsigned char *input, unsigned char *output);
void TF(_KT256ProcessLeaves)(const unsigned char *input, unsigned char *output);
#ifdef TREE_MONITOR
#ifndef TREE_START
#define TREE_START()
#endif
#ifdef MODEL_FAIL
#define TMON(x)
#else
#define TMON(x) x
#endif
void TF(_InitializeAll)(TS *s) {
    unsigned int i; s->base = g_in; s->abs = 0; s->pend = 0; s->done = 0; s->cnt = 0; for (i = 0; i < 8; i++) s->fl[i] = 0;
    TMON(TREE_START());
    TMON(xk_assert(g_leaf == 0, "P17:no leaf is left open when leaves are processed in parallel"));
    TMON(xk_assert(g_left >= TN * g_blk, "P17:parallel leaves are whole blocks of the input"));
}
void TF(_AddLanesAll)(TS *s, const unsigned char *data, unsigned int laneCount, unsigned int laneOffset) {
    unsigned int i; for (i = 0; i < TN; i++) xk_read(data + (size_t)i * laneOffset * 8, (size_t)laneCount * 8);
    TMON(xk_assert(s->pend == 0 && s->cnt == 0 && !s->done, "P17:one permutation per block of parallel leaves"));
    TMON(xk_assert((size_t)laneCount * 8 == g_rb, "P17:parallel leaves absorb whole blocks"));
    TMON(xk_assert((size_t)laneOffset * 8 == g_blk, "P17:parallel leaves are one block length apart"));
    TMON(xk_assert(xk_same(data, s->base) && data == s->base + s->abs, "P17:parallel leaves absorb the next bytes of their own block"));
    s->abs += (size_t)laneCount * 8; s->pend = 1;
    TMON(xk_assert(s->abs <= g_blk, "P17:a leaf absorbs no more than its block"));
}
static void TF(_perm)(TS *s, unsigned int rounds) {
    unsigned int i;
    TMON(xk_assert(rounds == g_rounds, "P10+P09+P17:number of rounds of the parallel permutation"));
    if (s->cnt == 0) { TMON(xk_assert(s->pend == 1, "P17:one permutation per block of parallel leaves")); s->pend = 0; }
    else { for (i = 0; i < TN; i++) TMON(xk_assert((s->fl[i] & 6) == 6 && ((s->fl[i] & 1) || s->abs == g_blk), "P17:every parallel leaf gets its last bytes, suffix and padding")); s->done = 1; }
}
void TF(_PermuteAll_4rounds)(TS *s) { TF(_perm)(s, 4); }
void TF(_PermuteAll_6rounds)(TS *s) { TF(_perm)(s, 6); }
void TF(_PermuteAll_12rounds)(TS *s) { TF(_perm)(s, 12); }
void TF(_PermuteAll_24rounds)(TS *s) { TF(_perm)(s, 24); }
void TF(_AddBytes)(TS *s, unsigned int i, const unsigned char *data, unsigned int offset, unsigned int length) {
    xk_read(data, length);
    if (length == 0) return;
    TMON(xk_assert(i < TN && s->pend == 0 && !s->done && !(s->fl[i] & 1), "P17:last bytes of a parallel leaf are added once"));
    TMON(xk_assert(offset == 0 && length == g_blk - s->abs && length < g_rb, "P17:last bytes of a parallel leaf complete its block"));
    TMON(xk_assert(xk_same(data, s->base) && data == s->base + i * g_blk + s->abs, "P17:last bytes of a parallel leaf come from its own block"));
    if (i < TN) s->fl[i] |= 1; s->cnt++;
}
void TF(_AddByte)(TS *s, unsigned int i, unsigned char byte, unsigned int offset) {
    TMON(xk_assert(i < TN && s->pend == 0 && !s->done, "P17:suffix and padding of a parallel leaf"));
    if (i >= TN) return;
    if (byte == 0x80 && offset == g_rb - 1 && !(s->fl[i] & 4)) s->fl[i] |= 4;
    else { TMON(xk_assert(byte == g_lsuf && !(s->fl[i] & 2), "P09+P17:suffix of the leaves")); TMON(xk_assert(offset == g_blk - s->abs, "P17:the suffix of a parallel leaf follows its last byte")); s->fl[i] |= 2; }
    s->cnt++;
}
void TF(_ExtractLanesAll)(const TS *s, unsigned char *data, unsigned int laneCount, unsigned int laneOffset) {
    unsigned int i; for (i = 0; i < TN; i++) xk_write(data + (size_t)i * laneOffset * 8, (size_t)laneCount * 8);
    TMON(xk_assert(s->done, "P17:chaining values are taken from finished leaves"));
    TMON(xk_assert((size_t)laneCount * 8 == g_cap && laneOffset == laneCount, "P17:chaining values have the capacity's length and are adjacent"));
    TMON(tree_cv(data, TN));
    xk_havoc((void *)s, sizeof *s);      /* nothing of the finished leaves is needed any more */
}
static size_t TF(_fast)(TS *s, unsigned int rounds, unsigned int laneCount, unsigned int offP, unsigned int offS, const unsigned char *data, size_t n) {
    size_t r = (size_t)laneCount * 8, k = 0;
    xk_read(data, n);
    TMON(xk_assert(rounds == g_rounds, "P10+P09+P17:number of rounds of the parallel permutation"));
    TMON(xk_assert(s->pend == 0 && s->cnt == 0 && !s->done && s->abs == 0, "P17:the fast loop starts fresh leaves"));
    TMON(xk_assert(r == g_rb && offS == laneCount, "P17:parallel leaves absorb whole blocks"));
    TMON(xk_assert((size_t)offP * 8 == g_blk, "P17:parallel leaves are one block length apart"));
    TMON(xk_assert(xk_same(data, s->base) && data == s->base, "P17:parallel leaves absorb the next bytes of their own block"));
    TMON(xk_assert(n <= TN * g_blk, "P17:a leaf absorbs no more than its block"));
    if (n >= (TN - 1) * g_blk) k = (n - (TN - 1) * g_blk) / g_rb;
    s->abs = k * g_rb; return s->abs;
}
size_t TJ(KeccakF1600times, TN, _FastLoop_Absorb)(TS *s, unsigned int laneCount, unsigned int offP, unsigned int offS, const unsigned char *data, size_t n) { return TF(_fast)(s, 24, laneCount, offP, offS, data, n); }
size_t TF(_12rounds_FastLoop_Absorb)(TS *s, unsigned int laneCount, unsigned int offP, unsigned int offS, const unsigned char *data, size_t n) { return TF(_fast)(s, 12, laneCount, offP, offS, data, n); }
static void TF(_leaves)(const unsigned char *input, unsigned char *output, unsigned int cap) {
    xk_read(input, TN * 8192); xk_write(output, TN * cap);
    TMON(TREE_START());
    TMON(xk_assert(g_leaf == 0, "P17:no leaf is left open when leaves are processed in parallel"));
    TMON(xk_assert(g_cap == cap && g_blk == 8192, "P17:leaf routine of this capacity"));
    TMON(xk_assert(xk_same(input, g_in) && input == g_in && g_left >= TN * g_blk, "P17:parallel leaves are whole blocks of the input"));
    TMON(tree_cv(output, TN));
}
void TF(_KT128ProcessLeaves)(const unsigned char *input, unsigned char *output) { TF(_leaves)(input, output, 32); }
void TF(_KT256ProcessLeaves)(const unsigned char *input, unsigned char *output) { TF(_leaves)(input, output, 64); }
#endif
#undef TMON
#undef TN
#undef TS
#undef TF
#undef TJ
#undef TJ0
