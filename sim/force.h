// Force-included when the instrumented variants are compiled: vector builtins that load or store through
// a pointer become plain dereferences, so that the instrumentation sees them.  Same values.
#pragma once
#include <immintrin.h>
static inline __attribute__((always_inline)) __m256 vf_bcast(const float* p) { float v = *p; return _mm256_set1_ps(v); }
static inline __attribute__((always_inline)) __m128 vf_bcast128(const float* p) { float v = *p; return _mm_set1_ps(v); }
static inline __attribute__((always_inline)) void vf_touch(const float* p) { volatile float v = *(volatile const float*)p; (void)v; }
static inline __attribute__((always_inline)) void vf_stream(float* p, __m256 v) { *(__m256*)p = v; }
static inline __attribute__((always_inline)) __m256 vf_maskload(const float* p, __m256i m) { union { __m256 v; float f[8]; } r; union { __m256i v; int i[8]; } k; k.v = m; for (int i = 0; i < 8; i++) r.f[i] = k.i[i] < 0 ? p[i] : 0.0f; return r.v; }
static inline __attribute__((always_inline)) void vf_maskstore(float* p, __m256i m, __m256 v) { union { __m256 v; float f[8]; } r; union { __m256i v; int i[8]; } k; r.v = v; k.v = m; for (int i = 0; i < 8; i++) if (k.i[i] < 0) p[i] = r.f[i]; }
#define _mm256_broadcast_ss(p) vf_bcast(p)
#define _mm_broadcast_ss(p) vf_bcast128(p)
#define _mm256_stream_ps(p, v) vf_stream(p, v)
#define _mm256_maskload_ps(p, m) vf_maskload(p, m)
#define _mm256_maskstore_ps(p, m, v) vf_maskstore(p, m, v)
extern "C" unsigned long long vf_rdtsc(void);
#undef __rdtsc
#undef __rdtscp
#define __rdtsc() vf_rdtsc()
#define __rdtscp(p) vf_rdtsc()
#define __builtin_ia32_rdtsc() vf_rdtsc()
