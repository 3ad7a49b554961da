#ifndef T8_H
#define T8_H
#define KeccakP1600times8_implementation "model"
#define KeccakP1600times8_StaticInitialize()
#ifdef MODEL_FASTLOOP
#define KeccakF1600times8_FastLoop_supported
#define KeccakP1600times8_12rounds_FastLoop_supported
#endif
#if defined(MODEL_LEAVES) || defined(MODEL_LEAVES8)
#define KeccakP1600times8_KT128ProcessLeaves_supported
#ifndef MODEL_LEAVES_K128
#define KeccakP1600times8_KT256ProcessLeaves_supported
#endif
#endif
#define TN 8
#include "times.h"
#endif
