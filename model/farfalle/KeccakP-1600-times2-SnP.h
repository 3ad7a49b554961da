#ifndef FT2
#define FT2
#include <stddef.h>
#include <stdint.h>
#define KeccakP1600times2_implementation "model"
#define KeccakP1600times2_StaticInitialize()
#ifdef MODEL_FAST2
#define KeccakF1600times2_FastKravatte_supported
#endif
size_t KeccakP1600times2_KravatteCompress(uint64_t *xAccu, uint64_t *kRoll, const unsigned char *input, size_t inputByteLen);
size_t KeccakP1600times2_KravatteExpand(uint64_t *yAccu, const uint64_t *kRoll, unsigned char *output, size_t outputByteLen);
#define TN 2
#define FP KeccakP1600times
#define FW 200
#include "times.h"
#undef TN
#undef FP
#undef FW
#endif
