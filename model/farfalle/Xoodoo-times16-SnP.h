#ifndef FX16
#define FX16
#include <stddef.h>
#include <stdint.h>
#define Xoodootimes16_StaticInitialize()
#ifdef MODEL_FAST16
#define Xoodootimes16_FastXoofff_supported
#endif
void Xooffftimes16_AddIs(unsigned char *output, const unsigned char *input, size_t bitLen);
size_t Xooffftimes16_CompressFastLoop(unsigned char *k, unsigned char *x, const unsigned char *input, size_t length);
size_t Xooffftimes16_ExpandFastLoop(unsigned char *yAccu, const unsigned char *kRoll, unsigned char *output, size_t length);
#define TN 16
#define FP Xoodootimes
#define FW 48
#include "times.h"
#undef TN
#undef FP
#undef FW
#endif
