/* Forced include for the sanitizer build of the AVX2 configuration: the hardware
   gather is not instrumented by the sanitizers, so replace it by scalar loads of the
   same bytes, which are. */
#include <immintrin.h>
#include <string.h>
static inline __attribute__((always_inline)) __m256i
checked_gather(const int *base, __m256i idx, int scale)
{
  union { __m256i v; int i[8]; } x, r;
  int j, k;
  x.v = idx;
  for (j = 0; j < 8; j++)
    {
      const volatile unsigned char *q = (const volatile unsigned char *)base + (long)x.i[j] * scale;
      unsigned v = 0;
      for (k = 3; k >= 0; k--)
        v = v << 8 | q[k];
      r.i[j] = (int)v;
    }
  return r.v;
}
#undef _mm256_i32gather_epi32
#define _mm256_i32gather_epi32(base, idx, scale) checked_gather((const int *)(base), (idx), (scale))
