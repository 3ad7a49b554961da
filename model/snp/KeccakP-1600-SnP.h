/* contract model of the Keccak-p[1600] SnP interface (SnP-documentation.h):
   what a caller may do with the state, with a ghost position in the current block */
#ifndef _KeccakP_1600_SnP_h_
#define _KeccakP_1600_SnP_h_
#include <stddef.h>
#include <stdint.h>
typedef struct {
    uint64_t A[25];
    unsigned int R;         /* ghost: bytes of the outer part, 0 when used as a plain permutation */
    unsigned int pos;       /* ghost: bytes of the current block already entered or extracted */
    unsigned int ph;        /* ghost: 0 absorbing, 1 suffix added, 2 padded, 3 squeezing */
    unsigned int opos;      /* ghost (duplex): next byte of the current output block */
    unsigned int late;      /* ghost: the suffix filled the block, its second padding bit needs a new one */
} KeccakP1600_plain64_state;
typedef KeccakP1600_plain64_state KeccakP1600_state;
#define KeccakP1600_implementation "model"
#ifdef MODEL_FASTLOOP
#define KeccakF1600_FastLoop_supported
#define KeccakP1600_12rounds_FastLoop_supported
#endif
#define KeccakP1600_StaticInitialize()
void KeccakP1600_Initialize(KeccakP1600_state *state);
void KeccakP1600_AddByte(KeccakP1600_state *state, unsigned char data, unsigned int offset);
void KeccakP1600_AddBytes(KeccakP1600_state *state, const unsigned char *data, unsigned int offset, unsigned int length);
void KeccakP1600_OverwriteBytes(KeccakP1600_state *state, const unsigned char *data, unsigned int offset, unsigned int length);
void KeccakP1600_OverwriteWithZeroes(KeccakP1600_state *state, unsigned int byteCount);
void KeccakP1600_Permute_Nrounds(KeccakP1600_state *state, unsigned int nrounds);
void KeccakP1600_Permute_12rounds(KeccakP1600_state *state);
void KeccakP1600_Permute_24rounds(KeccakP1600_state *state);
void KeccakP1600_ExtractBytes(const KeccakP1600_state *state, unsigned char *data, unsigned int offset, unsigned int length);
void KeccakP1600_ExtractAndAddBytes(const KeccakP1600_state *state, const unsigned char *input, unsigned char *output, unsigned int offset, unsigned int length);
size_t KeccakF1600_FastLoop_Absorb(KeccakP1600_state *state, unsigned int laneCount, const unsigned char *data, size_t dataByteLen);
size_t KeccakP1600_12rounds_FastLoop_Absorb(KeccakP1600_state *state, unsigned int laneCount, const unsigned char *data, size_t dataByteLen);
#endif
