#include "common.h"
#include <errno.h>
#include <stdarg.h>
#define ERRNO_MARK 7654

/* work done by a library call: basic blocks executed plus words moved by the C library,
   counted in the builds made with -DCOUNT_WORK */
uint64_t g_work, g_work_limit = ~(uint64_t)0;
int g_counting;
#ifdef COUNT_WORK
int g_count_work = 1;
static void work_exceeded(void)
{
  g_counting = 0;
  prop_fail("the call is still not done after %llu steps, more than %s", (unsigned long long)g_work, g_work_what);
}
void __sanitizer_cov_trace_pc(void)
{
  if (g_counting && ++g_work > g_work_limit)
    work_exceeded();
}
static void work_bytes(size_t n)
{
  if (g_counting && (g_work += 1 + n / 8) > g_work_limit)
    work_exceeded();
}
void *__real_memcpy(void *d, const void *s, size_t n);
void *__real_memmove(void *d, const void *s, size_t n);
void *__real_memset(void *d, int c, size_t n);
int __real_memcmp(const void *d, const void *s, size_t n);
void *__wrap_memcpy(void *d, const void *s, size_t n) { work_bytes(n); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { work_bytes(n); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { work_bytes(n); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *d, const void *s, size_t n) { work_bytes(n); return __real_memcmp(d, s, n); }
#else
int g_count_work = 0;
#endif
char g_work_what[160] = "allowed";
#define CALL_BEGIN() (errno = ERRNO_MARK, WORK_BEGIN())
#define CALL_END() (WORK_END(), g_errno |= errno != ERRNO_MARK)

uint8_t g_stack_poison = 0x5A;
int g_errno;

unsigned bsize(void)
{
  unsigned b = dvbcsa_bs_batch_size();
  static unsigned seen;
  if (b < 1 || b > 1u << 16)
    prop_fail("dvbcsa_bs_batch_size() = %u", b);
  if (seen && seen != b)
    prop_fail("dvbcsa_bs_batch_size() changed from %u to %u", seen, b);
  seen = b;
  return b > MAXN ? MAXN : b;
}

/* ------------------------------------------------------------ control words */
static void cw_checksum(uint8_t cw[8])
{
  cw[3] = (uint8_t)(cw[0] + cw[1] + cw[2]);
  cw[7] = (uint8_t)(cw[4] + cw[5] + cw[6]);
}

void gen_cw(uint8_t cw[8])
{
  static const uint8_t edge[8] = { 0, 0xff, 0x80, 0x7f, 1, 0xfe, 0x55, 0xaa };
  unsigned i, k = CH_WT(2, 6, 6, 3, 1, 1, 1, 1, 1, 1, 1, 2);
  uint32_t s;
  switch (k)
    {
    case 0:                            /* constant byte, 00 first */
      memset(cw, (int)ch_u(256), 8);
      break;
    case 1:
      ch_bytes(cw, 8);
      break;
    case 2:
      prng_fill(ch_seed(), cw, 8);
      break;
    case 3:                            /* DVB checksummed */
      prng_fill(ch_seed(), cw, 8);
      cw_checksum(cw);
      break;
    case 4:                            /* single bit set / cleared */
      s = ch_u(128);
      memset(cw, s >= 64 ? 0xff : 0, 8);
      cw[s / 8 % 8] ^= (uint8_t)(1u << (s % 8));
      break;
    case 5:                            /* equal halves */
      prng_fill(ch_seed(), cw, 4);
      memcpy(cw + 4, cw, 4);
      break;
    case 6:                            /* bytes with equal nibbles */
      prng_fill(ch_seed(), cw, 8);
      for (i = 0; i < 8; i++)
        cw[i] = (uint8_t)((cw[i] & 15) * 17);
      break;
    case 7:                            /* palindrome */
      prng_fill(ch_seed(), cw, 4);
      for (i = 0; i < 4; i++)
        cw[7 - i] = cw[i];
      break;
    case 8:                            /* counter */
      s = ch_u(256);
      for (i = 0; i < 8; i++)
        cw[i] = (uint8_t)(s + i);
      break;
    case 9:                            /* one half zero */
      prng_fill(ch_seed(), cw, 8);
      memset(ch_bool(1, 2) ? cw : cw + 4, 0, 4);
      break;
    case 11:                           /* bytes at the ends of their range among others */
      s = ch_seed();
      prng_fill(s, cw, 8);
      for (i = 0; i < 8; i++)
        if (cw[i] & 64)
          cw[i] = edge[cw[i] >> 3 & 1 ? cw[i] & 7 : cw[i] & 1];
      if (s & 4)
        memset(cw + 4 * (s >> 3 & 1), cw[s >> 5 & 7], 3);
      break;
    default:                           /* few significant bytes, checksummed (real-world style) */
      memset(cw, 0, 8);
      cw[ch_u(3)] = (uint8_t)ch_u(256);
      cw[4 + ch_u(3)] = (uint8_t)ch_u(256);
      cw_checksum(cw);
    }
}

/* a control word related to another one */
void gen_cw_rel(uint8_t cw[8], const uint8_t other[8])
{
  unsigned i, j, k = CH_WT(3, 6, 3, 1, 1, 1, 1, 1, 2, 1, 1, 1, 2);
  uint8_t t[8];
  memcpy(t, other, 8);
  switch (k)
    {
    case 0:                            /* same */
      break;
    case 1:                            /* one bit flipped */
      i = ch_u(64);
      t[i / 8] ^= (uint8_t)(1u << (i % 8));
      break;
    case 2:                            /* one byte changed */
      i = ch_u(8);
      t[i] = (uint8_t)ch_u(256);
      break;
    case 3:                            /* halves swapped */
      memcpy(t, other + 4, 4);
      memcpy(t + 4, other, 4);
      break;
    case 4:                            /* nibbles swapped */
      for (i = 0; i < 8; i++)
        t[i] = (uint8_t)(other[i] << 4 | other[i] >> 4);
      break;
    case 5:                            /* reversed */
      for (i = 0; i < 8; i++)
        t[i] = other[7 - i];
      break;
    case 6:                            /* complemented */
      for (i = 0; i < 8; i++)
        t[i] = (uint8_t)~other[i];
      break;
    case 7:                            /* two bytes swapped */
      i = ch_u(7);
      t[i] = other[i + 1];
      t[i + 1] = other[i];
      break;
    case 8:                            /* one half kept, other half new */
      prng_fill(ch_seed(), t + (ch_bool(1, 2) ? 4 : 0), 4);
      break;
    case 9:                            /* same XOR of its bytes, halves or 16-bit words */
      {
        static const unsigned dist[] = { 4, 2, 1, 6 };
        j = dist[ch_u(4)];
        i = ch_u(8 - j);
        k = 1 + ch_u(255);
        t[i] ^= (uint8_t)k;
        t[i + j] ^= (uint8_t)k;
      }
      break;
    case 10:                           /* the same sum of bytes or of halves */
      i = ch_u(4);
      j = i + (ch_bool(1, 2) ? 4 : 1);
      k = 1 + ch_u(255);
      t[i] = (uint8_t)(t[i] + k);
      t[j] = (uint8_t)(t[j] - k);
      break;
    case 11:                           /* rotated by bytes, or the next one in counting order */
      i = ch_u(10);
      if (i < 8)
        for (j = 0; j < 8; j++)
          t[j] = other[(j + i) & 7];
      else
        for (j = 0; j < 8 && !++t[i == 8 ? j : 7 - j]; j++)
          ;
      break;
    default:
      gen_cw(t);
    }
  memcpy(cw, t, 8);
}

void desc_cw(const uint8_t *cw)
{
  describe("cw=");
  hexcat(cw, 8);
  describe(" ");
}

/* ------------------------------------------------------------ payloads */
unsigned gen_len(unsigned max)
{
  unsigned l;
  switch (CH_WT(6, 2, 2, 1, 1))
    {
    case 0:
      l = ch_u((max < 184 ? max : 184) + 1);
      break;
    case 1:
      l = 184;
      break;
    case 2:
      l = 8 * ch_u(24);
      break;
    case 3:
      l = ch_u(25);
      break;
    default:
      l = ch_u(max + 1);
    }
  return l > max ? max : l;
}

unsigned gen_long(void)
{ /* single payloads longer than any transport packet; round sizes stand out */
  unsigned k = CH_WT(4, 2, 2, 1);
  if (k == 0)
    {
      unsigned b = 9 + ch_u(8), d = CH_WT(5, 1, 1);
      return (1u << b) + (d == 1 ? 1u << (b - 1) : 0) + (d == 2 ? ch_u(33) - 16 : ch_bool(1, 2) ? ch_u(17) - 8 : 0);
    }
  if (k == 1)
    return (unsigned[]){ 184, 188, 1316, 1000 }[ch_u(4)] * (2 + ch_u(40));
  if (k == 2)
    return 1000 + ch_u(8000);
  return 1000 + ch_u(80000);
}

void fill_kind(unsigned kind, uint32_t seed, uint8_t *p, size_t n, const uint8_t *cw)
{
  size_t i;
  uint8_t t[8];
  switch (kind)
    {
    case 0:
      memset(p, 0, n);
      break;
    case 1:
      memset(p, (int)(seed & 255), n);
      break;
    case 2:
      for (i = 0; i < n; i++)
        p[i] = (uint8_t)(seed + i);
      break;
    case 3:
      prng_fill(seed, p, n);
      break;
    case 4:                            /* all clear / all set but one bit */
      memset(p, seed & 0x80000000u ? 0xff : 0, n);
      if (n)
        p[(seed >> 3) % n] ^= (uint8_t)(1u << (seed & 7));
      break;
    case 5:                            /* the control word repeated */
      for (i = 0; i < n; i++)
        p[i] = cw ? cw[i % 8] : (uint8_t)i;
      break;
    case 6:                            /* one 8-byte block repeated */
      prng_fill(seed, t, 8);
      for (i = 0; i < n; i++)
        p[i] = t[i % 8];
      break;
    case 7:                            /* sparse bytes */
      prng_fill(seed, p, n);
      for (i = 0; i < n; i++)
        p[i] &= (uint8_t)(p[i] >> 3) & (uint8_t)(p[i] << 1);
      break;
    case 8:                            /* random first block, then constant */
      memset(p, (int)(seed >> 24), n);
      prng_fill(seed, p, n < 8 ? n : 8);
      break;
    case 9:                            /* one block with small changes here and there */
    case 10:                           /* halves and bytes drawn from a few values */
      {
        uint8_t base[16];
        uint64_t r;
        prng_t g;
        g.s = seed;
        prng_fill(seed ^ 0x5bd1e995u, base, 16);
        if (seed & 1)
          memset(base + 8, 0, 4);
        for (i = 0; i < n; i += 8)
          {
            size_t m = n - i < 8 ? n - i : 8;
            r = prng_next(&g) >> 16;
            memcpy(t, base, 8);
            if (kind == 9)
              {
                if (r & 1)
                  t[r >> 1 & 7] ^= (uint8_t)(r & 16 ? 1u << (r >> 5 & 7) : r >> 5);
              }
            else
              {
                memcpy(t, base + (r & 12), 4);
                memcpy(t + 4, base + (r >> 2 & 12), 4);
                if (!(r & 0xc0))
                  memcpy(t + 4, t, 4);
              }
            memcpy(p + i, t, m);
          }
      }
      break;
    case 12:                           /* what scramblers meet: TS packets, PES and elementary stream start codes, sections, stuffing */
      {
        static const uint8_t head[][8] = {
          { 0x47, 0x1f, 0xff, 0x10, 0xff, 0xff, 0xff, 0xff }, { 0x47, 0x1f, 0xff, 0x10, 0, 0, 0, 0 }, { 0x47, 0x40, 0x00, 0x10, 0x00, 0x00, 0xb0, 0x0d },
          { 0x00, 0x00, 0x01, 0xe0, 0x00, 0x00, 0x80, 0x80 }, { 0x00, 0x00, 0x01, 0xc0, 0x00, 0x00, 0x84, 0x80 }, { 0x00, 0x00, 0x01, 0xb3, 0x2d, 0x02, 0x40, 0x33 },
          { 0x00, 0x00, 0x00, 0x01, 0x09, 0xf0, 0x00, 0x00 }, { 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x01, 0xba }, { 0x47, 0x41, 0x00, 0xb7, 0x07, 0x10, 0x00, 0x00 },
          { 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff }, { 0x00, 0x70, 0x2f, 0x00, 0xff, 0xff, 0xff, 0xff }, { 0x47, 0x1f, 0xff, 0xd0, 0x00, 0x00, 0x01, 0xe0 },
          { 0xff, 0xf1, 0x50, 0x80, 0x00, 0x00, 0x00, 0x00 }, { 0x0b, 0x77, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00 }, { 0x47, 0x47, 0x47, 0x47, 0x47, 0x47, 0x47, 0x47 } };
        size_t step = seed & 16 ? 188 : seed & 32 ? 184 : n + 1, m;
        if (seed & 64)
          memset(p, seed & 128 ? 0xff : 0, n);
        else
          prng_fill(seed, p, n);
        for (i = 0; i < n; i += step)
          {
            const uint8_t *h = head[(seed >> 8) % (sizeof head / sizeof *head)];
            m = n - i < 8 ? n - i : 8;
            memcpy(p + i, h, seed & 0x100000 && m > 4 ? 4 : m);
            if (seed & 0x200000 && m > 3)
              p[i + 3] = (uint8_t)((p[i + 3] & 0xf0) | (i / step & 15));
            if (seed & 0x400000 && m == 8)
              p[i + 7] ^= (uint8_t)(seed >> 24);
          }
      }
      break;
    default:                           /* constant, then random last blocks */
      memset(p, (int)(seed >> 24), n);
      if (n > 12)
        prng_fill(seed, p + n - 12, 12);
    }
}

static void preimage(uint8_t *p, size_t n, const uint8_t *cw, int dec)
{ /* p was given structure: make the *result* of the operation have it, or the blocks that
     the block cipher sees inside it */
  ref_key_t rk;
  unsigned mid = ch_bool(2, 3);
  ref_key(&rk, cw);
  if (mid && dec)
    {
      if (n > 8)
        ref_stream_xor(&rk, p, p + 8, n - 8);
    }
  else if (mid)
    {
      uint8_t c[8], d[8];
      size_t j, i;
      memset(c, 0, 8);
      for (j = n / 8; j-- > 0;)
        {
          memcpy(d, p + 8 * j, 8);
          ref_encrypt(&rk, d, 8);
          for (i = 0; i < 8; i++)
            p[8 * j + i] ^= c[i];
          memcpy(c, d, 8);
        }
    }
  else if (dec)
    ref_encrypt(&rk, p, n);
  else
    ref_decrypt(&rk, p, n);
}

void gen_payload(uint8_t *p, size_t n, const uint8_t *cw, int dec)
{
  unsigned k = CH_WT(1, 1, 1, 8, 2, 1, 1, 1, 1, 1, 2, 1, 2, 5);
  if (k == NFILL)
    { /* raw bytes from the choice sequence */
      size_t m = n < 512 ? n : 512;
      ch_bytes(p, m);
      if (m < n)
        prng_fill(1, p + m, n - m);
    }
  else
    fill_kind(k, k ? ch_seed() : 0, p, n, cw);
  if (ch_bool(1, k == 9 || k == 10 ? 2 : 6))
    preimage(p, n, cw, dec);
}

/* ------------------------------------------------------------ batches */
void batch_place(batch_t *b, unsigned first_slot)
{
  unsigned i, off = 0, mode = b->mode;
  if (mode == PL_STRIP)
    { /* all in one buffer: back to back or with headers, in order or not */
      static const unsigned gaps[] = { 4, 0, 1, 20 };
      unsigned gap = gaps[b->shape & 3], ord[MAXN], t;
      size_t total = 0;
      uint8_t *p;
      int cells = b->shape >> 4;       /* payloads at the ends of 188-byte cells, as in a transport stream */
      if (cells)
        gap = 4;
      for (i = 0; i < b->n; i++)
        {
          total += gap + (cells && b->v[i].len < 184 ? 184 : b->v[i].len);
          ord[i] = b->shape & 4 ? b->n - 1 - i : i;
        }
      if (b->shape & 8)
        for (i = 1; i < b->n; i += 2)
          {
            t = ord[i];
            ord[i] = ord[i - 1];
            ord[i - 1] = t;
          }
      p = area_place(total, gap == 1);
      for (i = 0; i < b->n; i++)
        {
          p += gap;
          if (cells && b->v[ord[i]].len < 184)
            p += 184 - b->v[ord[i]].len;
          b->v[ord[i]].p = p;
          area_packet(p, b->v[ord[i]].len);
          p += b->v[ord[i]].len;
        }
      area_done();
      return;
    }
  for (i = 0; i < b->n; i++)
    {
      if (mode == 3)
        {
          unsigned m = i % 3;
          b->v[i].p = slot_place((int)(first_slot + i), b->v[i].len, (int)m, 300 + i, (uint8_t)(i * 7 + 3));
          continue;
        }
      off = mode != PL_OFFSET ? 0 : b->shape < 22 ? 300 + b->shape : 4095 - (i * 29 + b->shape) % 184;
      b->v[i].p = slot_place((int)(first_slot + i), b->v[i].len, (int)mode, off, (uint8_t)(i * 7 + 3));
    }
}

void gen_batch(batch_t *b, const uint8_t *cw, int dec, int cover, unsigned lencap, unsigned nmax)
{
  unsigned B = bsize(), i, lmode, cmode, L = 0, mx = 0, k;
  uint32_t s;
  if (nmax && B > nmax)
    B = nmax;
  switch (g_san || g_qemu ? CH_WT(6, 2, 2, 1, 1) : CH_WT(4, 4, 5, 2, 1))
    {
    case 0:
      b->n = ch_u(B < 6 ? B + 1 : 6);
      break;
    case 1:
      b->n = ch_u(B + 1);
      break;
    case 2:
      b->n = B;
      break;
    case 3:
      b->n = B - ch_u(B < 3 ? B : 3);
      break;
    default:
      i = B / 2 + ch_u(5);
      b->n = i < 2 ? 0 : i - 2 > B ? B : i - 2;
    }
  b->mode = CH_WT(4, 2, 4, 3, 4);
  b->shape = ch_u(32);
  lmode = CH_WT(6, 3, 3, 2, 2, 1, 1, 1);
  if (lmode)
    L = gen_len(lencap);
  for (i = 0; i < b->n; i++)
    {
      unsigned l;
      switch (lmode)
        {
        case 0:
          l = gen_len(lencap);
          break;
        case 1:                        /* all the same */
          l = L;
          break;
        case 2:                        /* mostly the same */
          l = ch_bool(1, 8) ? gen_len(lencap) : L;
          break;
        case 3:                        /* short ones among the rest */
          l = ch_bool(1, 2) ? ch_u(20) : L;
          break;
        case 4:                        /* sweep */
          l = (L + i) % ((lencap < 184 ? lencap : 184) + 1);
          break;
        case 6:                        /* falling */
          l = L > i * (1 + b->shape % 9) ? L - i * (1 + b->shape % 9) : L;
          break;
        case 7:                        /* all empty or short but a few */
          l = ch_bool(1, 16) || i + 1 == b->n ? L : b->shape & 1 ? ch_u(8) : 0;
          break;
        default:                       /* one block multiples */
          l = 8 * ch_u(lencap / 8 < 24 ? lencap / 8 + 1 : 24) + ch_u(2);
        }
      if (l > lencap)
        l = lencap;
      b->v[i].len = l;
      if (l > mx)
        mx = l;
    }
  batch_place(b, 0);
  cmode = CH_WT(3, 6, 3, 2, 2, 2);
  s = cmode && cmode != 2 ? ch_seed() : 0;
  k = ch_u(NFILL);
  for (i = 0; i < b->n; i++)
    switch (cmode)
      {
      case 0:                          /* one fill kind, own seed (packet index) */
        fill_kind(k, i * 0x01000193u + 1, b->v[i].p, b->v[i].len, cw);
        break;
      case 1:
        prng_fill(s + i, b->v[i].p, b->v[i].len);
        break;
      case 2:                          /* each its own generator; raw data only in small batches */
        if (b->n <= 8)
          gen_payload(b->v[i].p, b->v[i].len, cw, dec);
        else
          {
            unsigned kk = ch_u(NFILL);
            fill_kind(kk, i + ch_u(65536), b->v[i].p, b->v[i].len, cw);
          }
        break;
      case 3:                          /* identical packets */
        fill_kind(k, s, b->v[i].p, b->v[i].len, cw);
        break;
      case 5:                          /* nearly identical packets */
        fill_kind(k, s, b->v[i].p, b->v[i].len, cw);
        if (b->v[i].len && i % 3)
          b->v[i].p[(s >> 8) % 5 ? i * 31 % b->v[i].len : (unsigned)(s >> 16) % b->v[i].len] ^= (uint8_t)(s & 1 ? 1u << (i & 7) : i | 1);
        break;
      default:                         /* structured results */
        fill_kind(k, s + i, b->v[i].p, b->v[i].len, cw);
        preimage(b->v[i].p, b->v[i].len, cw, dec);
      }
  if (cover)
    { /* maxlen covers every packet */
      unsigned lo = (mx + 7) / 8;
      b->maxlen = ch_bool(1, 3) ? 8 * (lo + ch_u(24 - lo)) : 184;
    }
  else
    b->maxlen = 8 * ch_u(24);
}

void placed_check_all(const batch_t *b, unsigned first_slot, const char *what)
{
  unsigned i;
  if (b->mode == PL_STRIP)
    {
      area_check(what);
      return;
    }
  for (i = 0; i < b->n; i++)
    slot_check((int)(first_slot + i), what);
}

void desc_batch(const batch_t *b, int dec)
{
  unsigned i;
  if (!describing())
    return;
  describe("%s n=%u/%u maxlen=%u placement=%u lens=[", dec ? "decrypt" : "encrypt", b->n, bsize(), b->maxlen, b->mode);
  for (i = 0; i < b->n && i < 48; i++)
    describe("%s%u", i ? "," : "", b->v[i].len);
  describe("%s] ", b->n > 48 ? ",..." : "");
  for (i = 0; i < b->n && i < 3; i++)
    {
      describe("pkt%u=", i);
      hexcat(b->v[i].p, b->v[i].len < 24 ? b->v[i].len : 24);
      describe(b->v[i].len > 24 ? ".. " : " ");
    }
}

/* ------------------------------------------------------------ wrapped calls */
skey *sk_new(void)
{
  skey *k;
  g_track = 1;
  WORK_BEGIN();
  k = dvbcsa_key_alloc();
  WORK_END();
  g_track = 0;
  op_count(1);
  if (!k)
    prop_fail("dvbcsa_key_alloc returned NULL although memory is available");
  return k;
}

bkey *bk_new(void)
{
  bkey *k;
  g_track = 1;
  WORK_BEGIN();
  k = dvbcsa_bs_key_alloc();
  WORK_END();
  g_track = 0;
  op_count(1);
  if (!k)
    prop_fail("dvbcsa_bs_key_alloc returned NULL although memory is available");
  return k;
}

static unsigned cw_place;
int g_arr_mode;
void case_begin(void)
{
  cw_place = 0;
  g_stack_poison = 0x5A;
  g_heap_poison = 0xA5;
  g_heap_mode = 0;
  g_errno = 0;
  g_counting = 0;
  g_work_limit = ~(uint64_t)0;
  g_heap_front = 0;
  g_arr_mode = PL_END;
  galloc_reset();
}

static uint8_t *put_cw(const uint8_t *cw)
{
  uint8_t *p;
  unsigned c = cw_place++;
  slot_rw(SL_CW, 1);
  p = slot_place(SL_CW, 8, (int)(c % 3), 256 + c % 13, 0x11);
  memcpy(p, cw, 8);
  slot_rw(SL_CW, 0);
  return p;
}

void sk_set(const uint8_t *cw, skey *k)
{
  uint8_t *p = put_cw(cw);
  stack_poison(g_stack_poison);
  g_track = 1;
  CALL_BEGIN();
  dvbcsa_key_set(p, k);
  CALL_END();
  g_track = 0;
  slot_rw(SL_CW, -1);                  /* the library has no business with it any more */
  op_count(1);
}

void bk_set(const uint8_t *cw, bkey *k)
{
  uint8_t *p = put_cw(cw);
  stack_poison(g_stack_poison);
  g_track = 1;
  CALL_BEGIN();
  dvbcsa_bs_key_set(p, k);
  CALL_END();
  g_track = 0;
  slot_rw(SL_CW, -1);                  /* the library has no business with it any more */
  op_count(1);
}

void sk_free(skey *k)
{
  g_track = 1;
  WORK_BEGIN();
  dvbcsa_key_free(k);
  WORK_END();
  g_track = 0;
  op_count(1);
}

void bk_free(bkey *k)
{
  g_track = 1;
  WORK_BEGIN();
  dvbcsa_bs_key_free(k);
  WORK_END();
  g_track = 0;
  op_count(1);
}

void sk_crypt(int dec, const skey *k, uint8_t *p, unsigned len)
{
  galloc_protect(k, 0);
  stack_poison(g_stack_poison);
  g_track = 1;
  CALL_BEGIN();
  if (dec)
    dvbcsa_decrypt(k, p, len);
  else
    dvbcsa_encrypt(k, p, len);
  CALL_END();
  g_track = 0;
  galloc_protect(k, 1);
  op_count(1);
}

void bk_crypt(int dec, const bkey *k, const pk_t *v, unsigned n, unsigned maxlen, unsigned decoys)
{
  struct dvbcsa_bs_batch_s *a;
  size_t sz = (n + 1 + decoys) * sizeof *a;
  unsigned i;
  a = (struct dvbcsa_bs_batch_s *)slot_place(SL_ARR, sz, g_arr_mode, 0, 0x22);
  for (i = 0; i < n; i++)
    {
      memset(&a[i], 0, sizeof a[i]);
      a[i].data = v[i].p;
      a[i].len = v[i].len;
    }
  memset(&a[n], 0, sizeof a[n]);
  a[n].data = NULL;
  a[n].len = n & 1 ? 0xfffffff0u : 184;
  if (decoys)
    {
      uint8_t *d = slot_place(SL_DECOY, 184, PL_START, 0, 0x33);
      memset(d, 0x77, 184);
      for (i = 0; i < decoys; i++)
        {
          a[n + 1 + i].data = d;
          a[n + 1 + i].len = 184;
        }
    }
  slot_rw(SL_ARR, 0);
  galloc_protect(k, 0);
  stack_poison(g_stack_poison);
  g_track = 1;
  CALL_BEGIN();
  if (dec)
    dvbcsa_bs_decrypt(k, a, maxlen);
  else
    dvbcsa_bs_encrypt(k, a, maxlen);
  CALL_END();
  g_track = 0;
  galloc_protect(k, 1);
  slot_rw(SL_ARR, 1);
  op_count(1);
  if (decoys)
    {
      uint8_t *d = g_slot[SL_DECOY].p;
      slot_check(SL_DECOY, "packet listed after the terminator");
      for (i = 0; i < 184; i++)
        if (d[i] != 0x77)
          prop_fail("a packet listed after the batch terminator was modified");
    }
}

skey *sk_make(const uint8_t *cw) { skey *k = sk_new(); sk_set(cw, k); return k; }
bkey *bk_make(const uint8_t *cw) { bkey *k = bk_new(); bk_set(cw, k); return k; }

void ref_crypt(int dec, const ref_key_t *k, uint8_t *p, size_t len)
{
  if (dec)
    ref_decrypt(k, p, len);
  else
    ref_encrypt(k, p, len);
}

void expect_eq(const uint8_t *got, const uint8_t *want, size_t n, const char *fmt, ...)
{
  size_t i, nd = 0;
  char b[512];
  va_list ap;
  if (!memcmp(got, want, n))
    return;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  for (i = 0; i < n; i++)
    nd += got[i] != want[i];
  for (i = 0; got[i] == want[i]; i++)
    ;
  prop_fail("%s: %lu of %lu bytes differ, first at offset %lu (got %02x, expected %02x)", b,
            (unsigned long)nd, (unsigned long)n, (unsigned long)i, got[i], want[i]);
}
