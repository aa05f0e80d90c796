/* C18, lengths near and above 2^31 with the two ciphers replaced by cheap stand-ins,
   so that only the length arithmetic of the mode of operation runs.  Calibrated first
   on short payloads: when the stand-ins do not slot in (the library's internals look
   different), says so and gives no verdict. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <dvbcsa/dvbcsa.h>

static unsigned long n_enc, n_dec, n_stream;
static const uint8_t *s_iv;
static uint8_t *s_data;
static unsigned s_len;
void __wrap_dvbcsa_block_encrypt(const uint8_t *key, const uint8_t *in, uint8_t *out)
{
  uint64_t v;
  (void)key;
  n_enc++;
  memcpy(&v, in, 8);
  v = v * 3 + 0x9E3779B97F4A7C15ull;
  memcpy(out, &v, 8);
}
void __wrap_dvbcsa_block_decrypt(const uint8_t *key, const uint8_t *in, uint8_t *out)
{
  uint64_t v;
  (void)key;
  n_dec++;
  memcpy(&v, in, 8);
  v = (v - 0x9E3779B97F4A7C15ull) * 0xAAAAAAAAAAAAAAABull;
  memcpy(out, &v, 8);
}
static int real_stream, no_stream = 1;
static unsigned cpu_limit = 5;
/* arguments passed on as they came, whatever the internal function's signature is */
void __real_dvbcsa_stream_xor(long a, long b, long c, long d, long e, long f);
static void busy(int sig)
{
  (void)sig;
  (void)!write(1, "BUSY\n", 5);
  _exit(0);
}
void __wrap_dvbcsa_stream_xor(long a, long b, long c, long d, long e, long f)
{
  if (real_stream)
    {
      struct itimerval it = { { 0, 0 }, { cpu_limit, 0 } }, off = { { 0, 0 }, { 0, 0 } };
      no_stream = 0;
      signal(SIGPROF, busy);
      setitimer(ITIMER_PROF, &it, NULL);
      __real_dvbcsa_stream_xor(a, b, c, d, e, f);
      setitimer(ITIMER_PROF, &off, NULL);
      return;
    }
  n_stream++;
  s_iv = (const uint8_t *)b;
  s_data = (uint8_t *)c;
  s_len = (unsigned)d;
}

static uint64_t pat(uint64_t i) { i *= 0x9E3779B97F4A7C15ull; return i ^ i >> 31; }

static void fill(uint8_t *p, size_t n)
{
  size_t i;
  for (i = 0; i + 8 <= n; i += 8)
    {
      uint64_t v = pat(i);
      memcpy(p + i, &v, 8);
    }
  for (; i < n; i++)
    p[i] = (uint8_t)i;
}

/* 0 = matches the model, else 1 + offset of the first wrong block */
static uint64_t verify_enc(const uint8_t *p, size_t n)
{
  size_t nb = n / 8, j, i;
  uint64_t c = 0, v, got;
  for (j = nb; j-- > 0;)
    {
      v = pat(j * 8) ^ (j + 1 < nb ? c : 0);
      c = v * 3 + 0x9E3779B97F4A7C15ull;
      memcpy(&got, p + j * 8, 8);
      if (got != c)
        return 1 + j * 8;
    }
  for (i = nb * 8; i < n; i++)
    if (p[i] != (uint8_t)i)
      return 1 + i;
  return 0;
}

static uint64_t verify_plain(const uint8_t *p, size_t n)
{
  size_t i;
  uint64_t got;
  for (i = 0; i + 8 <= n; i += 8)
    {
      memcpy(&got, p + i, 8);
      if (got != pat(i))
        return 1 + i;
    }
  for (; i < n; i++)
    if (p[i] != (uint8_t)i)
      return 1 + i;
  return 0;
}

static int one(struct dvbcsa_key_s *k, uint8_t *p, size_t n, char *msg, size_t mn)
{
  uint64_t e;
  fill(p, n);
  n_enc = n_dec = n_stream = 0;
  dvbcsa_encrypt(k, p, (unsigned)n);
  if (n >= 16 && n_stream <= 1 && (!n_stream || s_data != p + 8 || s_iv != p || s_len != n - 8))
    {
      snprintf(msg, mn, "encrypt of %lu bytes runs the stream cipher %lu times over %u bytes", (unsigned long)n, n_stream, s_len);
      return 1;
    }
  if ((e = verify_enc(p, n)))
    {
      snprintf(msg, mn, "encrypt of %lu bytes: wrong block chaining at offset %lu (%lu block operations)", (unsigned long)n, (unsigned long)(e - 1), n_enc);
      return 1;
    }
  n_stream = 0;
  dvbcsa_decrypt(k, p, (unsigned)n);
  if (n >= 16 && n_stream <= 1 && (!n_stream || s_data != p + 8 || s_len != n - 8))
    {
      snprintf(msg, mn, "decrypt of %lu bytes runs the stream cipher over %u bytes", (unsigned long)n, s_len);
      return 1;
    }
  if ((e = verify_plain(p, n)))
    {
      snprintf(msg, mn, "decrypt of %lu bytes: wrong block chaining at offset %lu (%lu block operations)", (unsigned long)n, (unsigned long)(e - 1), n_dec);
      return 1;
    }
  return 0;
}

/* The real stream cipher over a long payload of zeros: when it comes back, the last bytes must
   have been scrambled.  When it is still busy after some CPU time it did not stop early, and
   there is no verdict. */
static int stream_end(struct dvbcsa_key_s *k, size_t n, int dec)
{
  enum { T = 256 };
  size_t nb = n / 8, j, i, run = 0, from;
  uint64_t v, x = 0, nx = 0;
  uint8_t ks[T + 16];
  uint8_t *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED)
    {
      printf("NOMEM\n");
      return 0;
    }
  if (dec)
    dvbcsa_decrypt(k, p, (unsigned)n);
  else
    dvbcsa_encrypt(k, p, (unsigned)n);
  if (no_stream)
    {
      printf("CALIBRATION: the stream cipher was not seen\n");
      return 0;
    }
  from = nb * 8 - T;
  memcpy(ks + T, p + nb * 8, n % 8);
  for (j = nb; j-- > nb - T / 8;)
    {
      memcpy(&v, p + j * 8, 8);
      if (dec)
        { /* undo the stand-in decryption: what went into it is the keystream */
          x = (v ^ nx) * 3 + 0x9E3779B97F4A7C15ull;
          nx = x;
        }
      else
        { /* what the stand-in made of a zero block, against what is there */
          nx = nx * 3 + 0x9E3779B97F4A7C15ull;
          x = v ^ nx;
        }
      memcpy(ks + (j * 8 - from), &x, 8);
    }
  for (i = 0; i < T + n % 8; i++)
    {
      run = ks[i] ? 0 : run + 1;
      if (run == 16)
        {
          printf("FAIL %lu %s of %lu bytes: no keystream at offset %lu\n", (unsigned long)n, dec ? "decrypt" : "encrypt", (unsigned long)n, (unsigned long)(from + i - 15));
          return 1;
        }
    }
  munmap(p, n);
  return 0;
}

int main(int argc, char **argv)
{
  struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  uint8_t cw[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }, *p;
  char msg[300];
  int i;
  size_t n, max = 0;
  dvbcsa_key_set(cw, k);
  for (i = 1; i < argc; i++)
    if ((n = strtoull(argv[i], NULL, 10)) > max)
      max = n;
  for (n = 8; n < 3000; n += n < 200 ? 1 : 61)
    {
      p = malloc(n);
      if (one(k, p, n, msg, sizeof msg) || (n >= 8 && (n_enc == 0 || n_dec == 0)))
        {
          printf("CALIBRATION: stand-ins do not fit (%s)\n", msg);
          return 0;
        }
      free(p);
    }
  /* Longer ones too: the caller has compared the real ciphers with the model at these sizes,
     so a mismatch means that the library takes another route for long payloads. */
  for (i = 0; i < 4; i++)
    {
      n = (size_t[]){ 65539, 200001, (1 << 20) + 5, (1 << 24) + 9 }[i];
      p = malloc(n);
      if (p && one(k, p, n, msg, sizeof msg))
        {
          printf("CALIBRATION: stand-ins do not fit long payloads (%s)\n", msg);
          return 0;
        }
      free(p);
    }
  if (argc > 2 && (!strcmp(argv[1], "-e") || !strcmp(argv[1], "-d")))
    {
      int dec = argv[1][1] == 'd';
      real_stream = 1;
      for (n = 512; n < 700; n += 9)
        if (stream_end(k, n, dec))
          {
            printf("CALIBRATION: short payloads already look wrong\n");
            return 0;
          }
      for (i = 2; i < argc; i++)
        if (stream_end(k, strtoull(argv[i], NULL, 10), dec))
          return 1;
      printf("OK\n");
      return 0;
    }
  p = mmap(NULL, max, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED)
    {
      printf("NOMEM\n");
      return 0;
    }
  for (i = 1; i < argc; i++)
    {
      n = strtoull(argv[i], NULL, 10);
      if (one(k, p + max - n, n, msg, sizeof msg))
        {
          printf("FAIL %lu %s\n", (unsigned long)n, msg);
          return 1;
        }
      printf("OK %lu\n", (unsigned long)n);
    }
  return 0;
}
