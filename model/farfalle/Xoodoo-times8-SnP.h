#ifndef FX8
#define FX8
#include <stddef.h>
#include <stdint.h>
#define Xoodootimes8_StaticInitialize()
#ifdef MODEL_FAST8
#define Xoodootimes8_FastXoofff_supported
#endif
void Xooffftimes8_AddIs(unsigned char *output, const unsigned char *input, size_t bitLen);
size_t Xooffftimes8_CompressFastLoop(unsigned char *k, unsigned char *x, const unsigned char *input, size_t length);
size_t Xooffftimes8_ExpandFastLoop(unsigned char *yAccu, const unsigned char *kRoll, unsigned char *output, size_t length);
#define TN 8
#define FP Xoodootimes
#define FW 48
#include "times.h"
#undef TN
#undef FP
#undef FW
#endif
