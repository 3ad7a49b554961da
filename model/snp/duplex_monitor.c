/* Keccak-p[1600] as seen by duplex functions (rate in bits): queued bytes at their
   position, one delimited end, one padding bit, one permutation per duplexing call. */
#include "ghost.h"
unsigned int g_rate, g_rounds; int g_case;
unsigned char g_suffix;
const unsigned char *g_in; size_t g_left;
unsigned char *g_out; size_t g_oleft;
const unsigned char *g_mask; size_t g_mleft;

void KeccakP1600_Initialize(KeccakP1600_state *s) {
    s->R = g_rate; s->pos = 0; s->ph = 0; s->late = 0; s->opos = (g_rate + 7) / 8;
}
static void last_bits(KeccakP1600_state *s, unsigned char data, unsigned int offset, unsigned int next) {
    xk_assert(offset == s->pos, "P01:the last bits follow the queued bytes");
    xk_assert(data == g_suffix, "P01:the last bits are those requested");
    xk_assert(g_left == 0, "P01:last bits only after all the input bytes");
    /* the delimiter must not reach the position of the final padding bit nor the capacity */
    xk_assert(8 * offset < s->R, "P04:last bits stay in the outer part");
    { unsigned int room = s->R - 1 - 8 * offset;     /* bit positions available to data and delimiter */
      if (room < 8) xk_assert(data < (1u << room), "P04:last bits stay in the outer part"); }
    s->ph = next;
}
void KeccakP1600_AddByte(KeccakP1600_state *s, unsigned char data, unsigned int offset) {
    xk_assert(offset < 200, "P02:AddByte offset inside the state");
    /* the two bytes of the padding may be added in either order (ph: 1 last bits added, 2 both, 4 final bit added) */
    { unsigned int pv = 1u << ((s->R - 1) % 8), po = (s->R - 1) / 8;
    if (s->ph == 0 && xk_known_eq(data, g_suffix)) last_bits(s, data, offset, 1);
    else if (s->ph == 4) last_bits(s, data, offset, 2);
    else {
        xk_assert(s->ph == 0 || s->ph == 1, "P01:final padding bit once");
        xk_assert(offset == po, "P01:final padding bit in the last byte of the block");
        xk_assert(data == pv, "P01:final padding bit at the end of the block");
        s->ph = s->ph == 0 ? 4 : 2;
    } }
}
static void enter(KeccakP1600_state *s, unsigned int offset, unsigned int length) {
    xk_assert(s->ph == 0, "P01:input only before the last bits");
    xk_assert(offset == s->pos, "P01:input enters at the next position of the block");
    xk_assert(8 * (offset + length) <= s->R - 2, "P04:queued input stays in the outer part");
    s->pos += length;
}
void KeccakP1600_AddBytes(KeccakP1600_state *s, const unsigned char *data, unsigned int offset, unsigned int length) {
    xk_assert(offset <= 200, "P02:AddBytes offset inside the state");
    xk_assert(length <= 200 - offset, "P02:AddBytes range inside the state");
    xk_read(data, length);
    if (length == 0) return;
    if (length == 1 && !xk_same(data, g_in)) { KeccakP1600_AddByte(s, data[0], offset); return; }
    xk_assert(xk_same(data, g_in) && data == g_in, "P01:queued bytes are the next input bytes");
    xk_assert(length <= g_left, "P01:no more bytes queued than given");
    g_in += length; g_left -= length;
    enter(s, offset, length);
}
void KeccakP1600_OverwriteBytes(KeccakP1600_state *s, const unsigned char *data, unsigned int offset, unsigned int length) {
    xk_assert(offset <= 200, "P02:OverwriteBytes offset inside the state");
    xk_assert(length <= 200 - offset, "P02:OverwriteBytes range inside the state");
    xk_read(data, length);
    if (length == 0) return;
    xk_assert(xk_same(data, g_in) && data == g_in, "P01:queued bytes are the next input bytes");
    xk_assert(length <= g_left, "P01:no more bytes queued than given");
    g_in += length; g_left -= length;
    enter(s, offset, length);
}
void KeccakP1600_OverwriteWithZeroes(KeccakP1600_state *s, unsigned int byteCount) {
    xk_assert(byteCount <= 200, "P02:OverwriteWithZeroes inside the state");
    xk_assert(s->pos == 0, "P01:overwriting with zeroes starts the block");
    g_left -= byteCount;
    enter(s, 0, byteCount);
}
static void permute(KeccakP1600_state *s, unsigned int rounds) {
    xk_assert(rounds == g_rounds, "P10:number of rounds of this mode");
    xk_assert(s->ph == 2, "P01:permutation exactly after the padding");
    s->ph = 0; s->pos = 0; s->opos = 0;
}
void KeccakP1600_Permute_Nrounds(KeccakP1600_state *s, unsigned int n) { permute(s, n); }
void KeccakP1600_Permute_12rounds(KeccakP1600_state *s) { permute(s, 12); }
void KeccakP1600_Permute_24rounds(KeccakP1600_state *s) { permute(s, 24); }
static void leave(KeccakP1600_state *s, unsigned char *data, unsigned int offset, unsigned int length) {
    xk_assert(offset <= (s->R + 7) / 8 && length <= (s->R + 7) / 8 - offset, "P04:output comes from the outer part");
    xk_assert(offset == s->opos, "P01:output taken from the next position of the block");
    xk_assert(xk_same(data, g_out) && data == g_out, "P01:output bytes are produced in order");
    xk_assert(length <= g_oleft, "P01:no more bytes output than requested");
    g_out += length; g_oleft -= length; s->opos += length;
}
void KeccakP1600_ExtractBytes(const KeccakP1600_state *cs, unsigned char *data, unsigned int offset, unsigned int length) {
    KeccakP1600_state *s = (KeccakP1600_state *)cs;
    xk_assert(offset <= 200, "P02:ExtractBytes offset inside the state");
    xk_assert(length <= 200 - offset, "P02:ExtractBytes range inside the state");
    xk_write(data, length);
    if (length == 0) return;
    leave(s, data, offset, length);
}
void KeccakP1600_ExtractAndAddBytes(const KeccakP1600_state *cs, const unsigned char *input, unsigned char *output, unsigned int offset, unsigned int length) {
    KeccakP1600_state *s = (KeccakP1600_state *)cs;
    xk_assert(offset <= 200, "P02:ExtractAndAddBytes offset inside the state");
    xk_assert(length <= 200 - offset, "P02:ExtractAndAddBytes range inside the state");
    xk_read(input, length); xk_write(output, length);
    if (length == 0) return;
    xk_assert(xk_same(input, g_mask) && input == g_mask, "P01:added input bytes are taken in order");
    xk_assert(length <= g_mleft, "P01:no more bytes added than given");
    g_mask += length; g_mleft -= length;
    leave(s, output, offset, length);
}
