#ifndef T4_H
#define T4_H
#define KeccakP1600times4_implementation "model"
#define KeccakP1600times4_StaticInitialize()
#ifdef MODEL_FASTLOOP
#define KeccakF1600times4_FastLoop_supported
#define KeccakP1600times4_12rounds_FastLoop_supported
#endif
#if defined(MODEL_LEAVES) || defined(MODEL_LEAVES4)
#define KeccakP1600times4_KT128ProcessLeaves_supported
#ifndef MODEL_LEAVES_K128
#define KeccakP1600times4_KT256ProcessLeaves_supported
#endif
#endif
#define TN 4
#include "times.h"
#endif
