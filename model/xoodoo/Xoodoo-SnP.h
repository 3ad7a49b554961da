/* contract model of the Xoodoo permutation interface, with ghost fields for the block under way */
#ifndef _Xoodoo_SnP_h_
#define _Xoodoo_SnP_h_
#include <stddef.h>
#include <stdint.h>
typedef struct {
    uint32_t A[12];
    unsigned int pos;       /* ghost: bytes entered in the current block */
    unsigned int ph;        /* ghost: 1 after the permutation, 2 data entered, 3 padded */
    unsigned int dom;       /* ghost: sum of the bytes added to the last byte of the state */
    unsigned int col;       /* ghost: colour due for the block entered */
    unsigned int opos;      /* ghost: bytes extracted since the permutation */
} Xoodoo_plain32_state;
typedef Xoodoo_plain32_state Xoodoo_state;
#define Xoodoo_implementation "model"
#define Xoodoo_HasNround
void Xoodoo_StaticInitialize(void);
void Xoodoo_Initialize(Xoodoo_plain32_state *state);
void Xoodoo_AddByte(Xoodoo_plain32_state *state, unsigned char byte, unsigned int offset);
void Xoodoo_AddBytes(Xoodoo_plain32_state *state, const uint8_t *data, unsigned int offset, unsigned int length);
void Xoodoo_OverwriteBytes(Xoodoo_plain32_state *state, const uint8_t *data, unsigned int offset, unsigned int length);
void Xoodoo_OverwriteWithZeroes(Xoodoo_plain32_state *state, unsigned int byteCount);
void Xoodoo_Permute_Nrounds(Xoodoo_plain32_state *state, unsigned int nrounds);
void Xoodoo_Permute_6rounds(Xoodoo_plain32_state *state);
void Xoodoo_Permute_12rounds(Xoodoo_plain32_state *state);
void Xoodoo_ExtractBytes(const Xoodoo_plain32_state *state, uint8_t *data, unsigned int offset, unsigned int length);
void Xoodoo_ExtractAndAddBytes(const Xoodoo_plain32_state *state, const uint8_t *input, uint8_t *output, unsigned int offset, unsigned int length);
#ifdef MODEL_FULLBLOCKS
#define CyclistFullBlocks_supported
size_t Xoodyak_AbsorbKeyedFullBlocks(Xoodoo_plain32_state *state, const uint8_t *X, size_t XLen);
size_t Xoodyak_AbsorbHashFullBlocks(Xoodoo_plain32_state *state, const uint8_t *X, size_t XLen);
size_t Xoodyak_SqueezeHashFullBlocks(Xoodoo_plain32_state *state, uint8_t *Y, size_t YLen);
size_t Xoodyak_SqueezeKeyedFullBlocks(Xoodoo_plain32_state *state, uint8_t *Y, size_t YLen);
size_t Xoodyak_EncryptFullBlocks(Xoodoo_plain32_state *state, const uint8_t *I, uint8_t *O, size_t IOLen);
size_t Xoodyak_DecryptFullBlocks(Xoodoo_plain32_state *state, const uint8_t *I, uint8_t *O, size_t IOLen);
#endif
#ifdef MODEL_FASTX
#define Xoodoo_FastXoofff_supported
size_t Xoofff_CompressFastLoop(unsigned char *k, unsigned char *x, const unsigned char *input, size_t length);
size_t Xoofff_ExpandFastLoop(unsigned char *yAccu, const unsigned char *kRoll, unsigned char *output, size_t length);
#endif
#endif
