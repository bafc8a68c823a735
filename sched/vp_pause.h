// Force-included into every engine source: a spin-wait hint becomes a
// scheduling point.
#pragma once
#include <xmmintrin.h>
#include <emmintrin.h>
#ifdef __cplusplus
extern "C" {
#endif
void vp_pause(void);
#ifdef __cplusplus
}
#endif
#define _mm_pause() vp_pause()
