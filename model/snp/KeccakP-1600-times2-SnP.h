#ifndef T2_H
#define T2_H
#define KeccakP1600times2_implementation "model"
#define KeccakP1600times2_StaticInitialize()
#ifdef MODEL_FASTLOOP
#define KeccakF1600times2_FastLoop_supported
#define KeccakP1600times2_12rounds_FastLoop_supported
#endif
#if defined(MODEL_LEAVES) || defined(MODEL_LEAVES2)
#define KeccakP1600times2_KT128ProcessLeaves_supported
#ifndef MODEL_LEAVES_K128
#define KeccakP1600times2_KT256ProcessLeaves_supported
#endif
#endif
#define TN 2
#include "times.h"
#endif
