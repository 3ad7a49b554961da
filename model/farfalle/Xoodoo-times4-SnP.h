#ifndef FX4
#define FX4
#include <stddef.h>
#include <stdint.h>
#define Xoodootimes4_StaticInitialize()
#ifdef MODEL_FAST4
#define Xoodootimes4_FastXoofff_supported
#endif
void Xooffftimes4_AddIs(unsigned char *output, const unsigned char *input, size_t bitLen);
size_t Xooffftimes4_CompressFastLoop(unsigned char *k, unsigned char *x, const unsigned char *input, size_t length);
size_t Xooffftimes4_ExpandFastLoop(unsigned char *yAccu, const unsigned char *kRoll, unsigned char *output, size_t length);
#define TN 4
#define FP Xoodootimes
#define FW 48
#include "times.h"
#undef TN
#undef FP
#undef FW
#endif
