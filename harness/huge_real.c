/* C18: one very long payload through the real ciphers.
   huge_real LEN DEC: DEC=0 encrypt then decrypt, DEC=1 decrypt then encrypt.  The first HEAD
   bytes of the clear side are checked against the model (they depend on the same bytes of
   the scrambled side only), the rest through the round trip. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
#include <dvbcsa/dvbcsa.h>
#include "refcsa.h"

#define HEAD_MAX (64u << 20)

static uint64_t pat(uint64_t i) { i = (i + 1) * 0x9E3779B97F4A7C15ull; i ^= i >> 29; i *= 0xBF58476D1CE4E5B9ull; return i ^ i >> 32; }
static uint8_t patb(uint64_t i) { return (uint8_t)(pat(i >> 3) >> (8 * (i & 7))); }

int main(int argc, char **argv)
{
  size_t n = argc > 1 ? strtoull(argv[1], NULL, 10) : 0, i;
  int dec = argc > 2 ? atoi(argv[2]) : 0;
  uint8_t cw[8] = { 0x3a, 0x91, 0x5c, 0x27, 0xe4, 0x08, 0xb7, 0xa3 };
  size_t HEAD = n < HEAD_MAX ? n : HEAD_MAX;
  uint8_t *head = malloc(HEAD + 8);
  struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  uint8_t *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || !head || n < 16 || !k)
    {
      printf("NOMEM\n");
      return 0;
    }
  dvbcsa_key_set(cw, k);
  for (i = 0; i < n; i++)
    p[i] = patb(i);
  if (dec)
    {
      memcpy(head, p, HEAD);
      dvbcsa_decrypt(k, p, (unsigned)n);
    }
  else
    {
      dvbcsa_encrypt(k, p, (unsigned)n);
      memcpy(head, p, HEAD);
    }
  ref_key_t rk;
  ref_key(&rk, cw);
  ref_decrypt(&rk, head, (unsigned)HEAD);
  /* the last block of the head has no successor in the truncated model run only when
     scrambling; descrambling is causal, so every byte is comparable */
  for (i = 0; i < HEAD; i++)
    if (head[i] != (dec ? p[i] : patb(i)))
      {
        printf("FAIL %s of %zu bytes differs from the model at offset %zu\n", dec ? "decrypt" : "encrypt", n, i);
        return 1;
      }
  if (dec)
    dvbcsa_encrypt(k, p, (unsigned)n);
  else
    dvbcsa_decrypt(k, p, (unsigned)n);
  for (i = 0; i < n; i++)
    if (p[i] != patb(i))
      {
        printf("FAIL round trip of %zu bytes differs at offset %zu\n", n, i);
        return 1;
      }
  printf("OK %zu\n", n);
  return 0;
}
