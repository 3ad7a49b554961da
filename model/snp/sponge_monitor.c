/* Keccak-p[1600] as seen by sponge functions: every byte at its position, permutation
   exactly when a block is complete, padding once, nothing beyond the outer part. */
#include "ghost.h"
unsigned int g_rate, g_rounds; int g_case;
unsigned char g_suffix;
const unsigned char *g_in; size_t g_left;
unsigned char *g_out; size_t g_oleft;

void KeccakP1600_Initialize(KeccakP1600_state *s) {
    s->R = g_rate; s->pos = 0; s->ph = 0; s->late = 0;
}
void KeccakP1600_AddByte(KeccakP1600_state *s, unsigned char data, unsigned int offset) {
    xk_assert(offset < 200, "P02:AddByte offset inside the state");
    xk_assert(offset < s->R, "P04:AddByte stays in the outer part");
    /* ph: 1 suffix added, 4 last padding bit added before the suffix, 2 both */
    if (s->ph == 4 || (s->ph == 0 && xk_known_eq(data, g_suffix))) {           /* delimited suffix */
        xk_assert(offset == s->pos, "P01:the suffix follows the last absorbed byte");
        xk_assert(data == g_suffix, "P01:the suffix is the one requested");
        if (s->ph == 4) { s->ph = 2; return; }
        s->late = 0;
        if (data >= 0x80 && offset == s->R - 1) s->late = 1;
        s->ph = 1;
    } else {
        xk_assert(s->ph == 0 || s->ph == 1, "P01:padding bit only once, after the suffix");
        xk_assert(s->late == 0, "P01:padding bit goes in a new block when the suffix filled the block");
        xk_assert(data == 0x80, "P01:last padding bit");
        xk_assert(offset == s->R - 1, "P01:last padding bit at the end of the block");
        if (s->ph == 0) { xk_assert(!(g_suffix >= 0x80 && s->pos == s->R - 1), "P01:padding bit goes in a new block when the suffix filled the block"); s->ph = 4; }
        else s->ph = 2;
    }
}
void KeccakP1600_AddBytes(KeccakP1600_state *s, const unsigned char *data, unsigned int offset, unsigned int length) {
    xk_assert(offset <= 200, "P02:AddBytes offset inside the state");
    xk_assert(length <= 200 - offset, "P02:AddBytes range inside the state");
    xk_read(data, length);
    if (length == 0) return;
    if (length == 1 && !xk_same(data, g_in)) { KeccakP1600_AddByte(s, data[0], offset); return; }
    xk_assert(offset <= s->R && length <= s->R - offset, "P04:AddBytes stays in the outer part");
    xk_assert(s->ph == 0, "P01:input only before padding");
    xk_assert(offset == s->pos, "P01:input enters at the next position of the block");
    xk_assert(xk_same(data, g_in) && data == g_in, "P01:absorbed bytes are the next input bytes");
    xk_assert(length <= g_left, "P01:no more bytes absorbed than given");
    g_in += length; g_left -= length; s->pos += length;
}
static void permute(KeccakP1600_state *s, unsigned int rounds) {
    xk_assert(rounds == g_rounds, "P10:number of rounds of this mode");
    xk_assert(s->ph != 4, "P01:no permutation between last padding bit and suffix");
    if (s->ph == 1) { xk_assert(s->late == 1, "P01:no permutation between suffix and last padding bit"); s->late = 0; }
    else {
        if (s->ph == 2) s->ph = 3;
        else xk_assert(s->pos == s->R, "P01:permutation exactly when the block is complete");
        s->pos = 0;
    }
}
void KeccakP1600_Permute_Nrounds(KeccakP1600_state *s, unsigned int n) { permute(s, n); }
void KeccakP1600_Permute_12rounds(KeccakP1600_state *s) { permute(s, 12); }
void KeccakP1600_Permute_24rounds(KeccakP1600_state *s) { permute(s, 24); }
void KeccakP1600_ExtractBytes(const KeccakP1600_state *cs, unsigned char *data, unsigned int offset, unsigned int length) {
    KeccakP1600_state *s = (KeccakP1600_state *)cs;
    xk_assert(offset <= 200, "P02:ExtractBytes offset inside the state");
    xk_assert(length <= 200 - offset, "P02:ExtractBytes range inside the state");
    xk_write(data, length);
    if (length == 0) return;
    xk_assert(offset <= s->R && length <= s->R - offset, "P04:ExtractBytes stays in the outer part");
    xk_assert(s->ph == 3, "P01:output only after padding and permutation");
    xk_assert(offset == s->pos, "P01:output taken from the next position of the block");
    xk_assert(xk_same(data, g_out) && data == g_out, "P01:output bytes are produced in order");
    xk_assert(length <= g_oleft, "P01:no more bytes output than requested");
    g_out += length; g_oleft -= length; s->pos += length;
}
static size_t fast(KeccakP1600_state *s, unsigned int laneCount, const unsigned char *data, size_t len, unsigned int rounds) {
    size_t n = xk_rangesz(0, len);
    xk_assert(laneCount >= 1 && laneCount <= 25, "P02:FastLoop lane count");
    xk_assert(rounds == g_rounds, "P10:number of rounds of this mode");
    xk_assert(laneCount * 8 == s->R, "P01:FastLoop block size is the rate");
    xk_assert(s->ph == 0, "P01:FastLoop only absorbs before padding");
    xk_assert(s->pos == 0, "P01:FastLoop starts on a block boundary");
    xk_assume(len - n < laneCount * 8);
    xk_read(data, n);
    if (n == 0) return 0;
    xk_assert(xk_same(data, g_in) && data == g_in, "P01:absorbed bytes are the next input bytes");
    xk_assert(n <= g_left, "P01:no more bytes absorbed than given");
    g_in += n; g_left -= n;
    return n;
}
size_t KeccakF1600_FastLoop_Absorb(KeccakP1600_state *s, unsigned int laneCount, const unsigned char *data, size_t len) { return fast(s, laneCount, data, len, 24); }
size_t KeccakP1600_12rounds_FastLoop_Absorb(KeccakP1600_state *s, unsigned int laneCount, const unsigned char *data, size_t len) { return fast(s, laneCount, data, len, 12); }
