#define _GNU_SOURCE
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <pthread.h>
#include <sys/time.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <locale.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

static const char *dn(int dec) { return dec ? "decrypt" : "encrypt"; }
static uint8_t B1[MAXN][256], B2[MAXN][256], B3[MAXN][256];
static uint8_t L1[1u << 21], L2[1u << 21];

/* ============================================================ C01 / C02 */
static void single_vs_ref(int dec)
{
  uint8_t cw[8], *p;
  ref_key_t rk;
  skey *k;
  unsigned n, i, off, mode;
  gen_cw(cw);
  ref_key(&rk, cw);
  k = sk_make(cw);
  n = 1 + ch_u(4);
  desc_cw(cw);
  for (i = 0; i < n; i++)
    {
      int lng = ch_rare(g_qemu || g_san ? 400 : 120);
      unsigned len = lng ? gen_long() : gen_len(g_qemu ? 400 : 1200);
      if (lng)
        {
          p = area_place(len, ch_bool(1, 3));
          area_packet(p, len);
          area_done();
        }
      else
        {
          mode = (unsigned)slot_draw_mode(&off);
          p = slot_place(SL_X, len, (int)mode, off, 0x44);
        }
      gen_payload(p, len, cw, dec);
      memcpy(L1, p, len);
      describe("[len=%u align=%u %s=", len, (unsigned)((uintptr_t)p & 15), dec ? "ct" : "pt");
      hexcat(p, len < 64 ? len : 64);
      describe("] ");
      sk_crypt(dec, k, p, len);
      if (lng)
        area_check("payload surroundings");
      else
        slot_check(SL_X, "payload surroundings");
      ref_crypt(dec, &rk, L1, len);
      expect_eq(p, L1, len, "single %s of a %u-byte payload differs from DVB-CSA", dn(dec), len);
      if (len >= 8 && len != 184)
        nontrivial();
      label(lng ? "len>=1000" : len < 8 ? "len<8" : len == 184 ? "len=184" : len % 8 ? "len%8!=0" : "len%8==0");
    }
  sk_free(k);
}
static void c01(void) { single_vs_ref(0); }
static void c02(void) { single_vs_ref(1); }

/* ============================================================ C03 */
static void c03(void)
{
  uint8_t cw[8];
  unsigned how, i;
  int first;
  static batch_t b;
  skey *k;
  bkey *q;
  gen_cw(cw);
  first = ch_bool(1, 2);
  how = CH_WT(3, 4, 3, 3);             /* ss, bb, sb, bs */
  k = sk_make(cw);
  q = bk_make(cw);
  desc_cw(cw);
  if (how == 0)
    {
      int lng = ch_rare(g_qemu || g_san ? 200 : 50);
      unsigned off, mode = (unsigned)slot_draw_mode(&off), len = lng ? gen_long() : gen_len(g_qemu ? 400 : 2000);
      uint8_t *p = lng ? area_place(len, (int)mode & 1) : slot_place(SL_X, len, (int)mode, off, 0x44);
      gen_payload(p, len, cw, first);
      memcpy(L1, p, len);
      describe("single %s then %s len=%u data=", dn(first), dn(!first), len);
      hexcat(p, len < 64 ? len : 64);
      sk_crypt(first, k, p, len);
      if (len >= 8 && len != 184)
        nontrivial();
      sk_crypt(!first, k, p, len);
      expect_eq(p, L1, len, "single %s then %s (len %u) is not the identity", dn(first), dn(!first), len);
      label("single-single");
    }
  else
    {
      int trunc = how == 1 && ch_bool(1, 4);
      gen_batch(&b, cw, first, !trunc, 184, 0);
      desc_batch(&b, first);
      for (i = 0; i < b.n; i++)
        {
          memcpy(B1[i], b.v[i].p, b.v[i].len);
          if (b.v[i].len >= 8 && (b.v[i].len != 184 || b.n < bsize()))
            nontrivial();
        }
      if (how != 2)
        bk_crypt(first, q, b.v, b.n, b.maxlen, 0);
      else
        for (i = 0; i < b.n; i++)
          sk_crypt(first, k, b.v[i].p, b.v[i].len);
      if (how != 3)
        bk_crypt(!first, q, b.v, b.n, b.maxlen, 0);
      else
        for (i = 0; i < b.n; i++)
          sk_crypt(!first, k, b.v[i].p, b.v[i].len);
      for (i = 0; i < b.n; i++)
        expect_eq(b.v[i].p, B1[i], b.v[i].len, "%s %s then %s %s: packet %u of %u (len %u, maxlen %u) not restored",
                  how == 2 ? "single" : "batch", dn(first), how == 3 ? "single" : "batch", dn(!first), i, b.n, b.v[i].len, b.maxlen);
      label(how == 1 ? trunc ? "batch-batch-truncated" : "batch-batch" : how == 2 ? "single-batch" : "batch-single");
    }
  sk_free(k);
  bk_free(q);
}

/* ============================================================ C04 / C05 */
static void batch_vs_single(int dec)
{
  uint8_t cw[8];
  static batch_t b;
  skey *k;
  bkey *q;
  unsigned i, j, rounds, ragged;
  gen_cw(cw);
  k = sk_make(cw);
  q = bk_make(cw);
  rounds = 1 + ch_u(2);
  desc_cw(cw);
  for (j = 0; j < rounds; j++)
    {
      gen_batch(&b, cw, dec, 1, 184, g_san == 2 ? 8 : 0);
      desc_batch(&b, dec);
      ragged = b.n < bsize();
      for (i = 0; i < b.n; i++)
        {
          memcpy(B1[i], b.v[i].p, b.v[i].len);
          ragged |= b.v[i].len != b.v[0].len;
        }
      bk_crypt(dec, q, b.v, b.n, b.maxlen, 0);
      placed_check_all(&b, 0, "packet surroundings");
      for (i = 0; i < b.n; i++)
        {
          sk_crypt(dec, k, B1[i], b.v[i].len);
          expect_eq(b.v[i].p, B1[i], b.v[i].len, "batch %s: packet %u of %u (len %u, maxlen %u) differs from the single-packet result",
                    dn(dec), i, b.n, b.v[i].len, b.maxlen);
          if (b.v[i].len >= 16 && ragged)
            nontrivial();
        }
      labeln("packets", b.n);
      label(b.n == 0 ? "n=0" : b.n == bsize() ? "n=full" : "n=partial");
    }
  sk_free(k);
  bk_free(q);
}
static void c04(void) { batch_vs_single(0); }
static void c05(void) { batch_vs_single(1); }

/* ============================================================ C06 */
static uint8_t LONGB[MAXN][MAXL];

/* Packets whose stated length does not fit in 16 or 31 bits: the first 64 KB are real memory,
   the rest is only reserved and must not be written. */
#define NGIANT 3
static uint8_t *giant(unsigned i, size_t len)
{
  static uint8_t *map[NGIANT];
  const size_t span = sizeof(size_t) > 4 ? ((size_t)1 << 16 << 16) + 65536 : (size_t)1 << 26;
  if (len > span - 65536)
    return NULL;
  if (!map[i])
    {
      map[i] = mmap(NULL, span, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (map[i] == MAP_FAILED || mprotect(map[i], 65536, PROT_READ | PROT_WRITE))
        {
          map[i] = NULL;
          return NULL;
        }
    }
  return map[i] + 4096 + i * 8;
}

static void c06(void)
{
  uint8_t cw[8];
  static batch_t b;
  skey *k;
  bkey *q;
  unsigned i, cap;
  int dec;
  gen_cw(cw);
  dec = ch_bool(1, 2);
  k = sk_make(cw);
  q = bk_make(cw);
  cap = (unsigned[]){ 184, 200, 400, 4000 }[CH_WT(6, 2, 2, 1)];
  gen_batch(&b, cw, dec, 0, cap, 0);
  if (b.n && ch_rare(20))
    {
      unsigned j, at = ch_u(b.n), step = 1 + ch_u(8);
      for (j = 0; j < NGIANT && at < b.n; j++, at += step)
        {
          unsigned w = CH_WT(3, 2, 2, 2, 1);
          uint64_t l = w == 0 ? 65536u + ch_u(200) : w == 1 ? 0x80000000u + ch_u(200) : w == 2 ? 0xffffffffu - ch_u(200) : w == 3 ? ((uint64_t)(1 + ch_u(255)) << 24) + ch_u(200) : 65536u * (uint64_t)(1 + ch_u(65535)) + ch_u(256);
          uint8_t *q = giant(j, (size_t)l);
          if (!q)
            continue;
          prng_fill(ch_seed(), q, MAXL);
          b.v[at].p = q;
          b.v[at].len = (unsigned)l;
          label("packet >= 64 KB");
        }
    }
  desc_cw(cw);
  desc_batch(&b, dec);
  for (i = 0; i < b.n; i++)
    memcpy(LONGB[i], b.v[i].p, b.v[i].len < MAXL ? b.v[i].len : MAXL);
  bk_crypt(dec, q, b.v, b.n, b.maxlen, 0);
  placed_check_all(&b, 0, "packet surroundings");
  for (i = 0; i < b.n; i++)
    {
      unsigned l = b.v[i].len, m = l < b.maxlen ? l : b.maxlen;
      expect_eq(b.v[i].p + m, LONGB[i] + m, (l < MAXL ? l : MAXL) - m, "batch %s with maxlen %u: bytes beyond maxlen of packet %u (len %u, n %u) were changed", dn(dec), b.maxlen, i, l, b.n);
      sk_crypt(dec, k, LONGB[i], m);
      expect_eq(b.v[i].p, LONGB[i], m, "batch %s with maxlen %u: packet %u (len %u, n %u) is not processed as its first %u bytes", dn(dec), b.maxlen, i, l, b.n, m);
      if (l > b.maxlen && m >= 8)
        nontrivial(), label("truncated packet");
      if (l > 184)
        label("packet > 184");
    }
  sk_free(k);
  bk_free(q);
}

/* ============================================================ C07 */
static void c07(void)
{
  uint8_t cw[8];
  static batch_t a, c;
  bkey *q;
  unsigned i, j, n2, B, how, perm[MAXN];
  int dec, cover;
  prng_t r;
  gen_cw(cw);
  dec = ch_bool(1, 2);
  cover = ch_bool(3, 4);
  q = bk_make(cw);
  B = bsize();
  gen_batch(&a, cw, dec, cover, 184, 0);
  desc_cw(cw);
  desc_batch(&a, dec);
  for (i = 0; i < a.n; i++)
    memcpy(B1[i], a.v[i].p, a.v[i].len);
  bk_crypt(dec, q, a.v, a.n, a.maxlen, 0);
  placed_check_all(&a, 0, "packet surroundings");
  for (i = 0; i < a.n; i++)
    memcpy(B2[i], a.v[i].p, a.v[i].len);
  /* second batch: some of the same packets at other positions, among others */
  how = CH_WT(3, 3, 4, 2);
  r.s = ch_seed();
  if (a.n)
    nontrivial();
  c.mode = CH_WT(4, 2, 4, 3, 4);
  c.shape = ch_u(32);
  for (i = 0; i < MAXN; i++)
    perm[i] = MAXN;                    /* MAXN: a stranger */
  switch (how)
    {
    case 0:                            /* one packet, alone */
      n2 = a.n ? 1 : 0;
      if (a.n)
        perm[0] = ch_u(a.n);
      break;
    case 1:                            /* a permutation of the batch */
      n2 = a.n;
      for (i = 0; i < n2; i++)
        perm[i] = i;
      for (i = n2; i > 1; i--)
        {
          unsigned t, x = (unsigned)(prng_next(&r) >> 33) % i;
          t = perm[i - 1];
          perm[i - 1] = perm[x];
          perm[x] = t;
        }
      break;
    case 2:                            /* same positions kept for some, strangers elsewhere, other count */
      n2 = ch_u(B + 1);
      for (i = 0; i < n2; i++)
        if (i < a.n && (prng_next(&r) >> 40) % 3)
          perm[i] = i;
      break;
    default:                           /* scattered subset with repetitions among strangers */
      n2 = ch_u(B + 1);
      for (i = 0; i < n2; i++)
        if (a.n && (prng_next(&r) >> 40) % 2)
          perm[i] = (unsigned)(prng_next(&r) >> 33) % a.n;
    }
  c.n = n2;
  for (i = 0; i < n2; i++)
    {
      unsigned cap = cover ? a.maxlen : 184;
      c.v[i].len = perm[i] < MAXN ? a.v[perm[i]].len : (unsigned)(prng_next(&r) >> 33) % (cap + 1);
    }
  batch_place(&c, 0);
  for (i = 0; i < n2; i++)
    if (perm[i] < MAXN)
      memcpy(c.v[i].p, B1[perm[i]], c.v[i].len);
    else
      prng_fill(prng_next(&r), c.v[i].p, c.v[i].len);
  describe("second batch: kind %u n=%u", how, n2);
  bk_crypt(dec, q, c.v, n2, a.maxlen, 0);
  placed_check_all(&c, 0, "packet surroundings");
  for (i = 0; i < n2; i++)
    if (perm[i] < MAXN)
      {
        j = perm[i];
        expect_eq(c.v[i].p, B2[j], c.v[i].len, "batch %s: packet (len %u, maxlen %u) gives different results at position %u of %u and at position %u of %u",
                  dn(dec), c.v[i].len, a.maxlen, i, n2, j, a.n);
      }
  label(how == 0 ? "alone" : how == 1 ? "permuted" : how == 2 ? "other neighbours" : "scattered");
  bk_free(q);
}

/* ============================================================ C08 */
static void proc(int api, int dec, skey *k, bkey *q, uint8_t *d, unsigned len, unsigned place)
{ /* process a private copy through the given API, result back in d */
  if (api == 0)
    {
      uint8_t *p = slot_place(SL_X, len, (int)(place % 3), 300 + place, 0x44);
      memcpy(p, d, len);
      sk_crypt(dec, k, p, len);
      slot_check(SL_X, "payload surroundings");
      memcpy(d, p, len);
    }
  else
    {
      pk_t v[MAXN];
      unsigned n = 1 + (api - 1) % bsize(), me = place % n, i, cap = place & 64 ? (len + 7) / 8 * 8 + (place & 8) : 184;
      if (cap > 184)
        cap = 184;
      for (i = 0; i < n; i++)
        {
          v[i].len = i == me ? len : (place + i * 37) % (cap + 1);
          v[i].p = slot_place((int)i, v[i].len, (int)((place + i) % 3), 300 + place, (uint8_t)i);
          if (i != me)
            prng_fill(i, v[i].p, v[i].len);
        }
      memcpy(v[me].p, d, len);
      bk_crypt(dec, q, v, n, cap, 0);
      slot_check((int)me, "packet surroundings");
      memcpy(d, v[me].p, len);
    }
}

static void c08(void)
{
  uint8_t cw[8], X[1100], Y[1100], Z[1100], W[1100], A[1100], Bv[1100], ks[8];
  ref_key_t rk;
  unsigned k8, r, r2, api, place, i;
  int dec;
  skey *k;
  bkey *q;
  gen_cw(cw);
  dec = ch_bool(1, 2);
  api = ch_bool(1, 2) ? 1 + ch_u(g_qemu ? 8 : 40) : 0;
  place = ch_u(256);
  k = sk_make(cw);
  q = bk_make(cw);
  desc_cw(cw);
  if (ch_bool(1, 5))
    { /* short payload */
      unsigned len = ch_u(8);
      gen_payload(A, len, cw, dec);
      memcpy(X, A, len);
      describe("%s api=%s len=%u data=", dn(dec), api ? "batch" : "single", len);
      hexcat(A, len);
      proc((int)api, dec, k, q, X, len, place);
      expect_eq(X, A, len, "%s %s changed a payload of %u bytes", api ? "batch" : "single", dn(dec), len);
      label("short");
      if (len)
        nontrivial();
    }
  else
    {
      k8 = 8 * (1 + (!api && ch_bool(1, 3) ? ch_u(130) : ch_u(22)));
      r = 1 + ch_u(7);
      gen_payload(A, k8 + r, cw, dec);
      memcpy(Bv, A, k8);
      ch_bytes(Bv + k8, r);
      describe("%s api=%s full=%u residue=%u data=", dn(dec), api ? "batch" : "single", k8, r);
      hexcat(A, k8 + r);
      nontrivial();
      memcpy(X, A, k8);
      proc((int)api, dec, k, q, X, k8, place);
      memcpy(Y, A, k8 + r);
      proc((int)api, dec, k, q, Y, k8 + r, place + 1);
      memcpy(Z, Bv, k8 + r);
      proc((int)api, dec, k, q, Z, k8 + r, place + 2);
      expect_eq(Y, X, k8, "%s %s: %u trailing bytes changed the result for the %u bytes before them", api ? "batch" : "single", dn(dec), r, k8);
      expect_eq(Z, X, k8, "%s %s: content of %u trailing bytes changed the result for the %u bytes before them", api ? "batch" : "single", dn(dec), r, k8);
      for (i = 0; i < r; i++)
        {
          ks[i] = Y[k8 + i] ^ A[k8 + i];
          W[i] = Z[k8 + i] ^ Bv[k8 + i];
        }
      expect_eq(W, ks, r, "%s %s: the keystream applied to %u trailing bytes (after %u) depends on them", api ? "batch" : "single", dn(dec), r, k8);
      /* and it is the keystream of the cipher: taken from the first scrambled block */
      ref_key(&rk, cw);
      memset(W, 0, k8 + r);
      ref_stream_xor(&rk, dec ? A : Y, W + 8, k8 + r - 8);
      expect_eq(W + k8, ks, r, "%s %s: %u trailing bytes (after %u) are not XORed with the keystream of the stream cipher", api ? "batch" : "single", dn(dec), r, k8);
      /* a shorter residue uses a prefix of the same keystream */
      r2 = 1 + ch_u(r);
      memcpy(Z, A, k8 + r2);
      proc((int)api, dec, k, q, Z, k8 + r2, place + 3);
      expect_eq(Z, Y, k8 + r2, "%s %s: %u trailing bytes are not treated like the first of %u", api ? "batch" : "single", dn(dec), r2, r);
      /* the opposite direction applies the same keystream */
      memcpy(W, Y, k8 + r);
      proc((int)api, !dec, k, q, W, k8 + r, place + 4);
      for (i = 0; i < r; i++)
        W[i] = W[k8 + i] ^ Y[k8 + i];
      expect_eq(W, ks, r, "%s %s and its inverse apply different keystreams to %u trailing bytes", api ? "batch" : "single", dn(dec), r);
      label(api ? "batch residue" : "single residue");
    }
  sk_free(k);
  bk_free(q);
}

/* ============================================================ C09 */
static void c09(void)
{
  uint8_t cw[8];
  static batch_t b;
  unsigned i, off, what;
  int dec;
  gen_cw(cw);
  dec = ch_bool(1, 2);
  what = CH_WT(2, 5, 2);
  g_stack_poison = (uint8_t)ch_u(256);
  g_heap_front = ch_bool(2, 5);
  g_arr_mode = ch_bool(2, 5) ? PL_START : PL_END;
  desc_cw(cw);
  if (what == 0)
    {
      skey *k = sk_make(cw);
      unsigned len = ch_bool(1, 6) ? ch_u(6000) : gen_len(260);
      int mode = slot_draw_mode(&off);
      uint8_t *p = slot_place(SL_X, len, mode, off, (uint8_t)ch_u(256));
      gen_payload(p, len, cw, dec);
      describe("single %s len=%u place=%d+%u", dn(dec), len, mode, off);
      sk_crypt(dec, k, p, len);
      slot_check(SL_X, "memory beside the payload");
      if (len >= 8)
        nontrivial();
      label("single");
      sk_free(k);
    }
  else if (what == 1)
    {
      bkey *q = bk_make(cw);
      unsigned cap = (unsigned[]){ 184, 191, 320, 6000 }[CH_WT(6, 2, 1, 1)];
      gen_batch(&b, cw, dec, 0, cap, g_san ? 12 : 0);
      if (ch_bool(1, 2))
        b.maxlen = 184;
      desc_batch(&b, dec);
      for (i = 0; i < b.n; i++)
        memcpy(LONGB[i], b.v[i].p, b.v[i].len);
      bk_crypt(dec, q, b.v, b.n, b.maxlen, ch_u(3));
      placed_check_all(&b, 0, "memory beside a packet");
      for (i = 0; i < b.n; i++)
        if (b.v[i].len > b.maxlen)
          expect_eq(b.v[i].p + b.maxlen, LONGB[i] + b.maxlen, b.v[i].len - b.maxlen, "bytes past maxlen %u of packet %u (len %u)", b.maxlen, i, b.v[i].len);
      if (b.n)
        nontrivial();
      label(cap > 184 ? "batch, packets may exceed 184" : "batch");
      bk_free(q);
    }
  else
    { /* key handling: several contexts side by side, all protected by guard pages */
      skey *k[3];
      bkey *q[3];
      uint8_t d[16];
      for (i = 0; i < 3; i++)
        {
          k[i] = sk_new();
          q[i] = bk_new();
          galloc_protect(k[i], 0);
          galloc_protect(q[i], 0);
        }
      for (i = 0; i < 3; i++)
        {
          galloc_protect(k[i], 1);     /* only the context being set may be written */
          sk_set(cw, k[i]);
          galloc_protect(k[i], 0);
          galloc_protect(q[i], 1);
          bk_set(cw, q[i]);
          galloc_protect(q[i], 0);
          gen_cw_rel(cw, cw);
        }
      memset(d, 0, 16);
      for (i = 0; i < 3; i++)
        {
          galloc_protect(k[i], 1);
          galloc_protect(q[i], 1);
          sk_free(k[i]);
          bk_free(q[i]);
        }
      describe("key set/free with guard pages");
      nontrivial();
      label("keys");
    }
}

/* ============================================================ C10 */
#define NCTX 48
/* one context set very many times */
static void c10_marathon(void)
{
  uint8_t cw[8], first[8];
  unsigned api = ch_u(2), k = (unsigned[]){ 300, 1100, 5000, 70000 }[CH_WT(6, 4, 4, 1)], j, used = 0;
  uint32_t every = 1 + ch_u(64);
  prng_t r;
  ref_key_t rk;
  void *key = api ? (void *)bk_new() : (void *)sk_new(), *other = api ? (void *)bk_new() : (void *)sk_new();
  if ((g_qemu || g_san || api) && k > 5000)
    k = 5000;
  r.s = ch_seed();
  gen_cw(cw);
  gen_cw(first);
  desc_cw(cw);
  describe("%s context set %u times", api ? "batch" : "single", k);
  if (api)
    bk_set(first, other);
  else
    sk_set(first, other);
  for (j = 0; j <= k; j++)
    {
      int o = j == k;                  /* the other one last: nothing was set in it meanwhile */
      if (!o)
        {
          uint64_t x = prng_next(&r) >> 20;
          if (x & 3)
            cw[x >> 2 & 7] ^= (uint8_t)(1u << (x >> 5 & 7));
          else if (x & 4)
            prng_fill(x, cw, 8);
          if (api)
            bk_set(cw, key);
          else
            sk_set(cw, key);
        }
      if (o || j + 1 == k || (prng_next(&r) >> 30) % (every * 8) == 0)
        {
          pk_t v;
          v.len = 16;
          v.p = slot_place(SL_X, 16, PL_END, 0, 0x44);
          prng_fill(j, v.p, 16);
          memcpy(L1, v.p, 16);
          if (api)
            bk_crypt((int)(j & 1), o ? other : key, &v, 1, 16, 0);
          else
            sk_crypt((int)(j & 1), o ? other : key, v.p, 16);
          ref_key(&rk, o ? first : cw);
          ref_crypt((int)(j & 1), &rk, L1, 16);
          expect_eq(v.p, L1, 16, "%s context does not use the control word set last after %u settings", o ? "another" : "the", j + 1);
          used++;
        }
    }
  if (api)
    {
      bk_free(key);
      bk_free(other);
    }
  else
    {
      sk_free(key);
      sk_free(other);
    }
  if (used)
    nontrivial();
  label("set very often");
}

static void history(unsigned maxsteps)
{
  struct { int kind; void *k; int set; uint8_t cw[8]; ref_key_t rk; } c[NCTX];
  uint8_t last[8];
  unsigned nctx = (unsigned[]){ 6, 18, NCTX }[CH_WT(8, 2, 1)];
  unsigned steps = 4 + ch_u(maxsteps + (nctx > 6 ? 3 * nctx : 0)), i, t, rekeys = 0, uses = 0;
  memset(c, 0, sizeof c);
  memset(last, 0, 8);
  g_heap_mode = (int)CH_WT(1, 2, 2);
  g_heap_front = ch_bool(1, 4);
  describe("heap-mode=%d: ", g_heap_mode);
  for (t = 0; t < steps; t++)
    {
      unsigned s = ch_u(nctx), op = CH_WT(3, 4, 8, 2);
      g_stack_poison = (uint8_t)(t * 29 + 7);
      g_heap_poison = t % 4 == 1 ? 0 : t % 4 == 2 ? last[0] : (uint8_t)(t * 13 + 1);
      if (!c[s].k)
        {
          c[s].kind = 1 + (int)ch_u(2);
          c[s].k = c[s].kind == 1 ? (void *)sk_new() : (void *)bk_new();
          c[s].set = 0;
          describe("a%u%c ", s, c[s].kind == 1 ? 's' : 'b');
        }
      if (op == 3)
        { /* free */
          if (c[s].kind == 1)
            sk_free(c[s].k);
          else
            bk_free(c[s].k);
          describe("f%u ", s);
          c[s].k = NULL;
          c[s].set = 0;
          continue;
        }
      if (op <= 1 || !c[s].set)
        { /* set, often related to what this or another context holds */
          unsigned rel = ch_u(4);
          uint8_t cw[8];
          if (rel == 0)
            gen_cw(cw);
          else if (rel == 1)
            gen_cw_rel(cw, c[s].cw);
          else if (rel == 2)
            gen_cw_rel(cw, c[ch_u(nctx)].cw);
          else
            gen_cw_rel(cw, last);
          if (c[s].set)
            rekeys++;
          memcpy(c[s].cw, cw, 8);
          memcpy(last, cw, 8);
          ref_key(&c[s].rk, cw);
          if (c[s].kind == 1)
            sk_set(cw, c[s].k);
          else
            bk_set(cw, c[s].k);
          c[s].set = 1;
          describe("s%u(", s);
          hexcat(cw, 8);
          describe(") ");
          if (op <= 1)
            continue;
        }
      uses++;
      if (c[s].kind == 1)
        {
          unsigned len = ch_rare(24) ? 8 + ch_u(8000) : 8 + ch_u(41);
          int dec = ch_bool(1, 2);
          uint8_t *p = slot_place(SL_X, len, (int)(t % 3), 300 + t, 0x44);
          prng_fill(ch_u(256), p, len);
          memcpy(L1, p, len);
          sk_crypt(dec, c[s].k, p, len);
          ref_crypt(dec, &c[s].rk, L1, len);
          describe("%c%u(%u) ", dec ? 'd' : 'e', s, len);
          expect_eq(p, L1, len, "step %u: single %s with context %u does not use the control word set last (len %u)", t, dn(dec), s, len);
        }
      else
        {
          pk_t v[MAXN];
          unsigned n = g_qemu || g_san || !ch_bool(1, 6) ? 1 + ch_u(3) : 1 + ch_u(bsize()), len = 8 + ch_u(n <= 4 && ch_bool(1, 4) ? 177 : 41);
          int dec = ch_bool(1, 2);
          uint32_t sd = ch_u(256);
          for (i = 0; i < n; i++)
            {
              v[i].len = len;
              v[i].p = slot_place((int)i, len, (int)((t + i) % 3), 300 + t, 0x44);
              prng_fill(sd + i, v[i].p, len);
              memcpy(B1[i], v[i].p, len);
            }
          bk_crypt(dec, c[s].k, v, n, (len + 7) / 8 * 8, 0);
          describe("B%c%u(%ux%u) ", dec ? 'd' : 'e', s, n, len);
          for (i = 0; i < n; i++)
            {
              ref_crypt(dec, &c[s].rk, B1[i], len);
              expect_eq(v[i].p, B1[i], len, "step %u: batch %s with context %u does not use the control word set last (packet %u of %u, len %u)", t, dn(dec), s, i, n, len);
            }
        }
    }
  for (i = 0; i < NCTX; i++)
    if (c[i].k)
      {
        if (c[i].kind == 1)
          sk_free(c[i].k);
        else
          bk_free(c[i].k);
      }
  if (uses >= 3 && rekeys)
    nontrivial();
  label(nctx == 6 ? "up to 6 contexts" : "up to 48 contexts");
  labeln("steps", steps);
  labeln("re-keys", rekeys);
}
static void c10(void)
{
  if (ch_rare(100))
    c10_marathon();
  else
    history(g_qemu ? 30 : 60);
}

/* ============================================================ C11 */
static int capture_begin(int save[2])
{
  static int fd = -1;
  if (fd < 0)
    fd = memfd_create("out", 0);
  if (fd < 0)
    return -1;
  fflush(NULL);
  if (ftruncate(fd, 0))
    return -1;
  lseek(fd, 0, SEEK_SET);
  save[0] = dup(1);
  save[1] = dup(2);
  dup2(fd, 1);
  dup2(fd, 2);
  return fd;
}

static void capture_end(int fd, int save[2])
{
  off_t n;
  fflush(NULL);
  n = lseek(fd, 0, SEEK_END);
  dup2(save[0], 1);
  dup2(save[1], 2);
  close(save[0]);
  close(save[1]);
  if (n > 0)
    prop_fail("library calls wrote %ld bytes to standard output or error", (long)n);
}

/* process-wide state a library has no business changing */
typedef struct {
  long rnd, rnd48;
  char *tok;
  int fd, mask, prio, dump;
  sigset_t sm;
  struct sigaction sa[32];
  struct rlimit rl[8];
  struct itimerval it[2];
  char cwd[256], loc[64], name[16];
  nlink_t tasks;
  uint64_t envh;
} world_t;

static void world_seed(unsigned seed)
{
  static char t[8];
  srandom(seed);
  srand48((long)seed);
  strcpy(t, "a b c");
  strtok(t, " ");
  umask(0137);                         /* values nobody would set by default */
  setlocale(LC_CTYPE, "C.UTF-8");
}

static void world_read(world_t *w)
{
  static const int rl[8] = { RLIMIT_CORE, RLIMIT_CPU, RLIMIT_DATA, RLIMIT_FSIZE, RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_AS, RLIMIT_MEMLOCK };
  extern char **environ;
  struct stat st;
  char **e, *c;
  int i;
  memset(w, 0, sizeof *w);
  w->rnd = random();
  w->rnd48 = lrand48();
  w->tok = strtok(NULL, " ");
  w->fd = dup(0);
  if (w->fd >= 0)
    close(w->fd);
  w->mask = umask(0);
  umask((mode_t)w->mask);
  w->prio = getpriority(PRIO_PROCESS, 0);
  w->dump = prctl(PR_GET_DUMPABLE);
  prctl(PR_GET_NAME, w->name);
  sigprocmask(SIG_SETMASK, NULL, &w->sm);
  for (i = 1; i < 32; i++)
    {
      struct sigaction a;
      if (!sigaction(i, NULL, &a))
        {
          w->sa[i].sa_handler = a.sa_handler;
          w->sa[i].sa_flags = a.sa_flags;
        }
    }
  for (i = 0; i < 8; i++)
    getrlimit(rl[i], &w->rl[i]);
  getitimer(ITIMER_REAL, &w->it[0]);
  getitimer(ITIMER_VIRTUAL, &w->it[1]);
  if (!getcwd(w->cwd, sizeof w->cwd))
    w->cwd[0] = 0;
  c = setlocale(LC_ALL, NULL);
  snprintf(w->loc, sizeof w->loc, "%s", c ? c : "");
  if (!stat("/proc/self/task", &st))
    w->tasks = st.st_nlink;
  for (e = environ; e && *e; e++)
    for (c = *e; *c; c++)
      w->envh = (w->envh ^ (uint8_t)*c) * 1099511628211ull + (uint64_t)(e - environ);
}

static const char *world_diff(const world_t *a, const world_t *b)
{
#define D(f, what) if (memcmp(&a->f, &b->f, sizeof a->f)) return what
  D(rnd, "the state of random()");
  D(rnd48, "the state of lrand48()");
  D(tok, "the state of strtok()");
  D(fd, "the set of open files");
  D(mask, "the file creation mask");
  D(prio, "the priority");
  D(dump, "the dumpable flag");
  D(name, "the thread name");
  D(sm, "the signal mask");
  D(sa, "a signal handler");
  D(rl, "a resource limit");
  D(it, "an interval timer");
  D(cwd, "the working directory");
  D(loc, "the locale");
  D(tasks, "the number of threads");
  D(envh, "the environment");
#undef D
  return NULL;
}

static void noise(prng_t *r)
{ /* an unrelated call that leaves other data behind on stack and heap */
  uint8_t cw[8];
  unsigned i, n;
  prng_fill(prng_next(r), cw, 8);
  if (prng_next(r) >> 60 & 1)
    {
      skey *k = sk_make(cw);
      unsigned len = (unsigned)(prng_next(r) >> 33) % 185;
      uint8_t *p = slot_place(SL_X + 1, len, PL_END, 0, 0x31);
      prng_fill(prng_next(r), p, len);
      sk_crypt((int)(prng_next(r) >> 50 & 1), k, p, len);
      sk_free(k);
    }
  else
    {
      pk_t v[MAXN];
      static uint8_t buf[MAXN][184];
      bkey *k = bk_make(cw);
      n = prng_next(r) >> 62 ? 1 + (unsigned)(prng_next(r) >> 33) % 4 : bsize();
      for (i = 0; i < n; i++)
        {
          v[i].len = 184;
          v[i].p = buf[i];
          prng_fill(prng_next(r), buf[i], 184);
        }
      bk_crypt((int)(prng_next(r) >> 50 & 1), k, v, n, 184, 0);
      bk_free(k);
    }
}

/* the same call over and over: nothing may build up with the number of calls made */
static void c11_marathon(void)
{
  static const unsigned ksingle[] = { 300, 1100, 4200, 33000, 66000, 132000 }, kbatch[] = { 300, 1100, 4200, 33000, 66000 };
  uint8_t cw[8], in[3][16], out[3][16];
  unsigned api = ch_u(2), i, j, k, len = 8 + ch_u(9), what = CH_WT(3, 1, 1), n;
  int dec = ch_bool(1, 2);
  const unsigned scale = g_san || g_qemu ? 8 : 1;
  void *key;
  pk_t v[3];
  gen_cw(cw);
  k = api ? kbatch[CH_WT(8, 6, 3, 1, 1)] : ksingle[CH_WT(4, 3, 3, 2, 4, 1)];
  if (api || what == 1)
    k = k > 4200 && (scale > 1 || what == 2) ? 4200 : k;
  if (what == 2 && k > 2000)
    k = 2000;
  n = api ? 1 + ch_u(3) : 1;
  prng_fill(ch_seed(), in[0], sizeof in);
  desc_cw(cw);
  describe("%u times %s", k, what == 0 ? "the same call" : what == 1 ? "key set and call" : "alloc, set, call, free");
  key = api ? (void *)bk_make(cw) : (void *)sk_make(cw);
  for (i = 0; i < n; i++)
    {
      v[i].p = slot_place((int)i, len, PL_END, 0, 0x55);
      v[i].len = len;
    }
  for (j = 0; j < k; j++)
    {
      if (j && what == 2)
        {
          if (api)
            bk_free(key);
          else
            sk_free(key);
          key = api ? (void *)bk_make(cw) : (void *)sk_make(cw);
        }
      else if (j && what == 1)
        {
          if (api)
            bk_set(cw, key);
          else
            sk_set(cw, key);
        }
      for (i = 0; i < n; i++)
        memcpy(v[i].p, in[i], len);
      if (api)
        bk_crypt(dec, key, v, n, (len + 7) / 8 * 8, 0);
      else
        sk_crypt(dec, key, v[0].p, len);
      for (i = 0; i < n; i++)
        if (!j)
          memcpy(out[i], v[i].p, len);
        else if (memcmp(out[i], v[i].p, len))
          prop_fail("repetition %u of the same %s %s gives another result (packet %u of %u, len %u)", j, api ? "batch" : "single", dn(dec), i, n, len);
    }
  if (api)
    bk_free(key);
  else
    sk_free(key);
  nontrivial();
  label("long history");
  if (k > 65536)
    label("more than 2^16 calls");
}

/* the same call once more, in a process forked or a thread started after the
   earlier calls; its results go to shared memory */
static struct { int dec, api; void *key; const uint8_t *cw; batch_t *b; uint8_t *out; int fresh; } el;
static void *c11_elsewhere_call(void *x)
{
  unsigned i, o = 0;
  void *k = el.key;
  if (el.api)
    {
      if (el.fresh)
        k = bk_make(el.cw);
      bk_crypt(el.dec, k, el.b->v, el.b->n, el.b->maxlen, 0);
    }
  else
    {
      if (el.fresh)
        k = sk_make(el.cw);
      sk_crypt(el.dec, k, el.b->v[0].p, el.b->v[0].len);
    }
  for (i = 0; i < el.b->n; o += el.b->v[i++].len)
    memcpy(el.out + 1 + o, el.b->v[i].p, el.b->v[i].len);
  el.out[0] = 1;
  if (el.fresh)
    {
      if (el.api)
        bk_free(k);
      else
        sk_free(k);
    }
  return x;
}

static void c11_elsewhere(int where)
{
  static uint8_t *out;
  unsigned i, o = 0, size = 1;
  for (i = 0; i < el.b->n; i++)
    {
      memcpy(el.b->v[i].p, B1[i], el.b->v[i].len);
      size += el.b->v[i].len;
    }
  if (size > MAXN * 256 + 1)
    return;
  if (!out)
    out = mmap(NULL, MAXN * 256 + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (out == MAP_FAILED)
    exit(2);
  el.out = out;
  out[0] = 0;
  if (where == 0)
    {
      int st;
      pid_t pid = fork();
      if (pid < 0)
        return;
      if (!pid)
        {
          struct itimerval it = { { 0, 0 }, { 20, 0 } };
          setitimer(ITIMER_PROF, &it, NULL);
          c11_elsewhere_call(NULL);
          _exit(0);
        }
      if (waitpid(pid, &st, 0) != pid)
        return;
      if (!out[0])
        prop_fail("a %s %s call in a child process forked after earlier calls does not come back (wait status %d)", el.api ? "batch" : "single", dn(el.dec), st);
    }
  else
    {
      pthread_t t;
      if (pthread_create(&t, NULL, c11_elsewhere_call, NULL))
        return;
      pthread_join(t, NULL);
    }
  for (i = 0; i < el.b->n; o += el.b->v[i++].len)
    expect_eq(out + 1 + o, B2[i], el.b->v[i].len, "the same %s %s gives another result in a %s after the earlier calls (packet %u of %u, len %u)",
              el.api ? "batch" : "single", dn(el.dec), where ? "thread started" : "process forked", i, el.b->n, el.b->v[i].len);
  label(where ? "repeated in a new thread" : "repeated in a forked process");
}

static void c11(void)
{
  uint8_t cw[8];
  static batch_t b;
  unsigned i, rep, reps = 2 + ch_u(3);
  int dec, api, save[2], fd = -1, quiet, fresh, cover, world, where;
  static world_t w0, w1;
  prng_t r;
  void *key = NULL;
  if (ch_rare(g_qemu || g_san ? 256 : 200))
    {
      c11_marathon();
      return;
    }
  gen_cw(cw);
  dec = ch_bool(1, 2);
  api = ch_bool(2, 3);
  quiet = !g_san && ch_bool(1, 3);
  cover = ch_bool(3, 4);
  desc_cw(cw);
  if (api)
    gen_batch(&b, cw, dec, cover, 184, g_san ? 6 : 0);
  else
    {
      b.n = 1;
      b.mode = CH_WT(4, 2, 4);
      b.shape = ch_u(32);
      b.maxlen = 184;
      b.v[0].len = ch_rare(20) ? gen_len(8000) : gen_len(256);
      batch_place(&b, 0);
      gen_payload(b.v[0].p, b.v[0].len, cw, dec);
    }
  desc_batch(&b, dec);
  describe("reps=%u api=%s", reps, api ? "batch" : "single");
  r.s = ch_seed();
  where = g_san ? 2 : (int[]){ 2, 0, 1 }[CH_WT(14, 1, 1)];
  for (i = 0; i < b.n; i++)
    memcpy(B1[i], b.v[i].p, b.v[i].len);
  if (quiet)
    fd = capture_begin(save);
  world = ch_bool(1, 6) && !g_san && !g_qemu;
  if (world)
    {
      world_seed((unsigned)r.s);
      world_read(&w0);
      world_seed((unsigned)r.s);
    }
  for (rep = 0; rep < reps; rep++)
    {
      g_stack_poison = (uint8_t)(prng_next(&r) >> 50);
      g_heap_poison = (uint8_t)(prng_next(&r) >> 50);
      g_heap_mode = (int)(prng_next(&r) >> 50) % 3;
      if (rep)
        {
          unsigned m = (unsigned)(prng_next(&r) >> 60) % 3;
          while (m--)
            noise(&r);
          b.mode = (unsigned)(prng_next(&r) >> 50) % 5;
          b.shape = (unsigned)(prng_next(&r) >> 50) % 32;
          batch_place(&b, 0);
          for (i = 0; i < b.n; i++)
            memcpy(b.v[i].p, B1[i], b.v[i].len);
          g_stack_poison = (uint8_t)(prng_next(&r) >> 50);
        }
      fresh = !key || (prng_next(&r) >> 61) & 1;
      if (api)
        {
          if (fresh)
            {
              if (key)
                bk_free(key);
              key = bk_make(cw);
            }
          bk_crypt(dec, key, b.v, b.n, b.maxlen, 0);
        }
      else
        {
          if (fresh)
            {
              if (key)
                sk_free(key);
              key = sk_make(cw);
            }
          sk_crypt(dec, key, b.v[0].p, b.v[0].len);
        }
      for (i = 0; i < b.n; i++)
        {
          if (rep == 0)
            memcpy(B2[i], b.v[i].p, b.v[i].len);
          else if (memcmp(b.v[i].p, B2[i], b.v[i].len) && fd >= 0)
            {
              dup2(save[0], 1);
              dup2(save[1], 2);
            }
          expect_eq(b.v[i].p, B2[i], b.v[i].len, "repetition %u of the same %s %s gives another result (packet %u of %u, len %u, maxlen %u)",
                    rep, api ? "batch" : "single", dn(dec), i, b.n, b.v[i].len, b.maxlen);
          if (b.v[i].len >= 8)
            nontrivial();
        }
    }
  if (world)
    {
      const char *x;
      world_read(&w1);
      x = world_diff(&w0, &w1);
      label("process state compared");
      if (x)
        {
          if (fd >= 0)
            capture_end(fd, save);
          prop_fail("a key set or %s %s call changed %s", api ? "batch" : "single", dn(dec), x);
        }
    }
  if (fd >= 0)
    {
      capture_end(fd, save);
      label("output captured");
    }
  if (where < 2)
    {
      el.dec = dec;
      el.api = api;
      el.key = key;
      el.cw = cw;
      el.b = &b;
      el.fresh = (prng_next(&r) >> 61) & 1;
      c11_elsewhere(where);
    }
  if (g_errno)
    prop_fail("a key set or %s %s call changed errno", api ? "batch" : "single", dn(dec));
  if (api)
    bk_free(key);
  else
    sk_free(key);
  label(api ? "batch" : "single");
}

/* ============================================================ C12 */
#define NTH 48
#define TH_LONG 6000
typedef struct {
  pthread_t t;
  uint32_t seed;
  unsigned ops, id, nth, phases;
  int bad;
  char msg[300];
  unsigned done;
} th_t;
static skey *sh_s[2];
static bkey *sh_b[2];
static ref_key_t sh_r[2];
static uint8_t sh_cw[2][8];
static pthread_barrier_t bar;

static void *worker(void *arg)
{
  th_t *me = arg;
  prng_t r = { me->seed };
  unsigned o, i;
  struct dvbcsa_bs_batch_s a[MAXN + 1];
  static __thread uint8_t buf[MAXN][200], exp[TH_LONG], lbuf[TH_LONG + 16];
  unsigned tail;
  skey *own_s = NULL;
  bkey *own_b = NULL;
  ref_key_t own_r;
  uint8_t cw[8];
  unsigned phase = 0;
  pthread_barrier_wait(&bar);
  for (o = 0; o < me->ops; o++)
    {
      if (me->phases && o && o % (me->ops / (me->phases + 1) + 1) == 0)
        { /* everybody pauses while one thread gives the shared contexts other control words */
          pthread_barrier_wait(&bar);
          if (phase++ % me->nth == me->id)
            for (i = 0; i < 2; i++)
              {
                uint64_t z = prng_next(&r) >> 40;
                if (z & 1)
                  prng_fill(prng_next(&r), sh_cw[i], 8);
                else
                  sh_cw[i][z >> 1 & 7] ^= (uint8_t)(1u << (z >> 4 & 7));
                if ((z >> 8) % 4 == 0)
                  {
                    dvbcsa_key_free(sh_s[i]);
                    dvbcsa_bs_key_free(sh_b[i]);
                    sh_s[i] = dvbcsa_key_alloc();
                    sh_b[i] = dvbcsa_bs_key_alloc();
                  }
                dvbcsa_key_set(sh_cw[i], sh_s[i]);
                dvbcsa_bs_key_set(sh_cw[i], sh_b[i]);
                ref_key(&sh_r[i], sh_cw[i]);
              }
          pthread_barrier_wait(&bar);
        }
      unsigned what = (unsigned)(prng_next(&r) >> 40) % 6, sel = (unsigned)(prng_next(&r) >> 40) & 1;
      int dec = (int)(prng_next(&r) >> 40 & 1);
      const ref_key_t *rk = &sh_r[sel];
      if ((prng_next(&r) >> 40) % 4 == 0)
        sched_yield();
      if (what == 0 || (what < 3 && !own_s))
        { /* (re)create or re-key the private contexts; sometimes equal to the shared ones */
          if (own_s && (prng_next(&r) >> 40 & 1))
            {
              dvbcsa_key_free(own_s);
              dvbcsa_bs_key_free(own_b);
              own_s = NULL;
            }
          if (!own_s)
            {
              own_s = dvbcsa_key_alloc();
              own_b = dvbcsa_bs_key_alloc();
            }
          prng_fill(prng_next(&r), cw, 8);
          if ((prng_next(&r) >> 40) % 4 == 0)
            memcpy(cw, sh_cw[sel], 8);
          dvbcsa_key_set(cw, own_s);
          dvbcsa_bs_key_set(cw, own_b);
          ref_key(&own_r, cw);
        }
      if (what <= 1 || what == 3)
        { /* single */
          unsigned z = (unsigned)(prng_next(&r) >> 40), len = z % 8 ? (z >> 4) % 185 : (z >> 4) % (TH_LONG + 1);
          uint8_t *p = lbuf + (prng_next(&r) >> 40 & 1 ? prng_next(&r) >> 60 : 0);
          prng_fill(prng_next(&r), p, len);
          memcpy(exp, p, len);
          if (what == 3)
            (dec ? dvbcsa_decrypt : dvbcsa_encrypt)(sh_s[sel], p, len);
          else
            (dec ? dvbcsa_decrypt : dvbcsa_encrypt)(own_s, p, len), rk = &own_r;
          ref_crypt(dec, rk, exp, len);
          if (memcmp(exp, p, len) && !me->bad)
            {
              me->bad = 1;
              snprintf(me->msg, sizeof me->msg, "thread %u, operation %u: single %s of %u bytes with a %s context gives a wrong result while other threads run", me->id, o, dn(dec), len, what == 3 ? "shared" : "private");
            }
        }
      else
        {
          unsigned n = (prng_next(&r) >> 40) % 3 ? 1 + (unsigned)(prng_next(&r) >> 40) % 4 : dvbcsa_bs_batch_size(), z = (unsigned)(prng_next(&r) >> 30),
                   len = 8 * (1 + (z & 8 ? z >> 5 & 7 : (z >> 5) % 23)), chk, shift = z >> 16 & 1 ? z >> 17 & 15 : 0;
          /* packets of one length, or of mixed ones up to and beyond maxlen */
          unsigned mixed = z >> 21 & 1;
          uint32_t sd = (uint32_t)prng_next(&r);
          for (i = 0; i < n; i++)
            {
              a[i].data = buf[i] + shift;
              a[i].len = mixed ? ((sd >> 4) + i * 37) % 185 : len;
              prng_fill(sd + i, a[i].data, a[i].len);
            }
          a[n].data = NULL;
          a[n].len = 0;
          if (what == 2)
            rk = &own_r;
          (dec ? dvbcsa_bs_decrypt : dvbcsa_bs_encrypt)(what == 2 ? own_b : sh_b[sel], a, len);
          for (chk = 0; chk < 6 && chk < n; chk++)
            {
              i = chk < 3 ? chk : n - 1 - (chk - 3) * (n / 4);
              if (i >= n)
                continue;
              tail = a[i].len;
              prng_fill(sd + i, exp, tail);
              ref_crypt(dec, rk, exp, tail < len ? tail : len);
              if (memcmp(exp, a[i].data, tail) && !me->bad)
                {
                  me->bad = 1;
                  snprintf(me->msg, sizeof me->msg, "thread %u, operation %u: batch %s, packet %u of %u (%u bytes, maxlen %u) with a %s context gives a wrong result while other threads run", me->id, o, dn(dec), i, n, tail, len, what == 2 ? "private" : "shared");
                }
            }
        }
      me->done++;
    }
  if (own_s)
    {
      dvbcsa_key_free(own_s);
      dvbcsa_bs_key_free(own_b);
    }
  return NULL;
}

static void c12(void)
{
  static th_t th[NTH];
  unsigned n = 2 + ch_u(5), i, ops = 4 + ch_u(g_san ? 20 : 40), waves = 1, wave, phases, done = 0;
  if (ch_rare(40))
    { /* a crowd */
      n = g_qemu ? 12 : 8 + ch_u(NTH - 7);
      ops = 2 + ch_u(6);
      label("more than 6 threads");
    }
  else if (ch_bool(1, 6))
    {
      waves = 2 + ch_u(3);
      ops = 2 + ops / 4;
      label("threads come and go");
    }
  phases = ch_bool(1, 2) ? ch_u(6) : 0;
  if (phases >= ops)
    phases = ops - 1;
  if (phases)
    label("shared contexts set between uses");
  for (i = 0; i < 2; i++)
    {
      skey *k;
      bkey *q;
      gen_cw(sh_cw[i]);
      ref_key(&sh_r[i], sh_cw[i]);
      k = dvbcsa_key_alloc();
      q = dvbcsa_bs_key_alloc();
      dvbcsa_key_set(sh_cw[i], k);
      dvbcsa_bs_key_set(sh_cw[i], q);
      sh_s[i] = k;
      sh_b[i] = q;
    }
  describe("%u x %u threads x %u operations, %u re-keyings, shared ", waves, n, ops, phases);
  desc_cw(sh_cw[0]);
  for (wave = 0; wave < waves; wave++)
    {
      pthread_barrier_init(&bar, NULL, n);
      for (i = 0; i < n; i++)
        {
          memset(&th[i], 0, sizeof th[i]);
          th[i].seed = ch_seed();
          th[i].ops = ops;
          th[i].id = i;
          th[i].nth = n;
          th[i].phases = phases;
          if (i < 6)
            describe("seed%u=%08x ", i, th[i].seed);
        }
      for (i = 0; i < n; i++)
        if (pthread_create(&th[i].t, NULL, worker, &th[i]))
          {
            fprintf(stderr, "pthread_create failed\n");
            _exit(0);
          }
      for (i = 0; i < n; i++)
        pthread_join(th[i].t, NULL);
      pthread_barrier_destroy(&bar);
      for (i = 0; i < n; i++)
        {
          done += th[i].done;
          if (th[i].bad)
            prop_fail("%s", th[i].msg);
        }
    }
  op_count(done);
  for (i = 0; i < 2; i++)
    {
      dvbcsa_key_free(sh_s[i]);
      dvbcsa_bs_key_free(sh_b[i]);
    }
  nontrivial();
  labeln("thread-operations", done);
}

/* ============================================================ C13 */
static void c13(void)
{ /* nothing drawn here may depend on the batch size or the build */
  uint8_t cw[8];
  unsigned N, i, j, maxlen, B = bsize(), cmode, k, lmode, L;
  uint32_t s, part;
  int dec;
  static uint8_t d[MAXN + 60][200];
  static unsigned len[MAXN + 60];
  uint8_t *p;
  gen_cw(cw);
  dec = ch_bool(1, 2);
  N = (unsigned[]){ 1, 5, 40, 140, 290 }[CH_WT(4, 4, 4, 2, 2)];
  N = 1 + ch_u(N);
  if (ch_bool(1, 6))                   /* just about full batches of some build */
    N = (32u << ch_u(4)) + (unsigned[]){ 0, ~0u, 1 }[ch_u(3)];
  part = ch_seed() | 1;                /* how the packets are split into batches */
  maxlen = ch_bool(1, 3) ? 8 * ch_u(24) : 184;
  lmode = ch_u(3);
  L = gen_len(184);
  cmode = ch_u(4);
  k = ch_u(NFILL);
  s = ch_seed();
  desc_cw(cw);
  describe("%s %u packets maxlen=%u ", dn(dec), N, maxlen);
  for (i = 0; i < N; i++)
    {
      len[i] = lmode == 0 ? L : lmode == 1 ? (L + i * 5) % 185 : gen_len(184);
      if (cmode == 0)
        fill_kind(k, i, d[i], len[i], cw);
      else if (cmode == 1 && N <= 6)
        gen_payload(d[i], len[i], cw, dec);
      else if (cmode == 2)
        fill_kind((k + i) % NFILL, s + i, d[i], len[i], cw);
      else
        prng_fill(s + i, d[i], len[i]);
      if (len[i] >= 8)
        nontrivial();
    }
  describe("lens %u,%u,.. pkt0=", len[0], N > 1 ? len[1] : 0);
  hexcat(d[0], len[0]);
  {
    skey *sk = sk_make(cw);
    for (i = 0; i < N && i < 4; i++)
      {
        p = slot_place(SL_X, len[i], (int)(i % 3), 300 + i, 0x44);
        memcpy(p, d[i], len[i]);
        sk_crypt(dec, sk, p, len[i]);
        g_digest = fnv(p, len[i], g_digest);
      }
    if (ch_bool(1, 10))
      { /* a long payload, too */
        unsigned n = gen_long(), off;
        if (n > 20000)
          n = 1000 + n % 19000;
        off = ch_u(16);
        prng_fill(s ^ 0x5eed, L1 + off, n);
        describe(" and %u bytes", n);
        sk_crypt(dec, sk, L1 + off, n);
        g_digest = fnv(L1 + off, n, g_digest);
        label("long payload");
      }
    sk_free(sk);
  }
  {
    bkey *q = bk_make(cw);
    pk_t v[MAXN];
    unsigned n;
    for (i = 0; i < N; i += n)
      {
        n = N - i < B ? N - i : B;
        if (part % 3 == 0)
          n = 1 + (part >> 5) % n;
        part = part * 1664525u + 1013904223u;
        for (j = 0; j < n; j++)
          {
            v[j].len = len[i + j];
            v[j].p = slot_place((int)j, v[j].len, (int)((i + j) % 3), 300 + (i + j) % 16, 0x44);
            memcpy(v[j].p, d[i + j], v[j].len);
          }
        bk_crypt(dec, q, v, n, maxlen, 0);
        for (j = 0; j < n; j++)
          {
            slot_check((int)j, "packet surroundings");
            g_digest = fnv(v[j].p, v[j].len, g_digest);
          }
      }
    bk_free(q);
  }
  labeln("packets", N);
}

/* ============================================================ C14 */
static void c14(void)
{
  struct { int kind; void *k; int set; uint8_t cw[8]; } c[10];
  unsigned steps = 4 + ch_u(24), t, i, oom = 0, live = 0;
  static uint8_t d[MAXN * 184], e[184];
  memset(c, 0, sizeof c);
  g_heap_mode = (int)ch_u(3);
  g_heap_front = ch_bool(1, 4);
  nontrivial();
  for (t = 0; t < steps; t++)
    {
      unsigned s = ch_u(10), op = CH_WT(6, 3, 4, 3, 1);
      int before, mem;
      if (!c[s].k)
        {
          int kind = 1 + (int)ch_u(2), fail = ch_bool(1, 3), seen;
          void *k;
          before = galloc_live();
          g_alloc_seen = 0;
          g_fail_at = fail ? (ch_bool(1, 3) ? 1 + (int)ch_u(2) : -1) : 0;
          g_track = 1;
          k = kind == 1 ? (void *)dvbcsa_key_alloc() : (void *)dvbcsa_bs_key_alloc();
          g_track = 0;
          seen = g_alloc_seen;
          op_count(1);
          describe("alloc%c%s ", kind == 1 ? 's' : 'b', fail ? "!" : "");
          if (fail && seen && (g_fail_at == -1 || seen >= g_fail_at))
            { /* an allocation was refused */
              g_fail_at = 0;
              oom++;
              if (k && galloc_live() == before)
                prop_fail("step %u: key allocation returned %p although its memory allocation failed", t, k);
              if (!k && galloc_live() != before)
                prop_fail("step %u: failed key allocation leaks memory", t);
              if (!k)
                continue;
            }
          g_fail_at = 0;
          if (!k)
            prop_fail("step %u: key allocation returned NULL although memory is available", t);
          for (i = 0; i < 10; i++)
            if (c[i].k == k)
              prop_fail("step %u: key allocation returned a context already in use", t);
          c[s].kind = kind;
          c[s].k = k;
          c[s].set = 0;
          live++;
        }
      before = galloc_live();
      if (op == 3)
        {
          describe("free%u ", s);
          if (c[s].kind == 1)
            sk_free(c[s].k);
          else
            bk_free(c[s].k);
          if (before && galloc_live() >= before)
            prop_fail("step %u: freeing a key context released no memory", t);
          c[s].k = NULL;
          live--;
          continue;
        }
      if (op == 4)
        {
          describe("freeNULL ");
          sk_free(NULL);
          bk_free(NULL);
          continue;
        }
      /* setting and processing must not need memory: every allocation fails, or some do, or none */
      mem = CH_WT(3, 2, 1);
      g_alloc_seen = 0;
      g_fail_at = mem == 0 ? -1 : mem == 1 ? 0 : 1 + (int)ch_u(3);
      describe(mem == 0 ? "" : mem == 1 ? "mem:" : "mem%d:", g_fail_at);
      if (op == 0 || !c[s].set)
        {
          gen_cw(c[s].cw);
          describe("set%u ", s);
          if (c[s].kind == 1)
            sk_set(c[s].cw, c[s].k);
          else
            bk_set(c[s].cw, c[s].k);
          c[s].set = 1;
        }
      if (op != 0)
        {
          int dec = (int)op - 1;
          ref_key_t rk;
          describe("use%u", s);
          ref_key(&rk, c[s].cw);
          if (c[s].kind == 1)
            {
              unsigned len = ch_bool(1, 3) ? (ch_bool(1, 6) ? gen_long() : gen_len(2000)) : 24;
              if (len > sizeof L1)
                len = sizeof L1;
              describe("(%u) ", len);
              prng_fill(t, L2, len);
              memcpy(L1, L2, len);
              sk_crypt(dec, c[s].k, L2, len);
              ref_crypt(dec, &rk, L1, len);
              expect_eq(L2, L1, len, "step %u: single %s (len %u) wrong%s", t, dn(dec), len, mem == 1 ? "" : " while memory is exhausted");
            }
          else
            {
              pk_t v[MAXN];
              unsigned n = ch_bool(1, 4) ? ch_u(bsize()) + 1 : 1 + ch_u(4), len = ch_bool(1, 2) ? gen_len(184) : 24;
              describe("(%ux%u) ", n, len);
              for (i = 0; i < n; i++)
                {
                  v[i].p = d + i * 184;
                  v[i].len = len - (i & len & 3);
                  prng_fill(t + i, v[i].p, v[i].len);
                }
              bk_crypt(dec, c[s].k, v, n, (len + 7) & ~7u, 0);
              for (i = 0; i < n; i += i + 3 < n ? n / 4 + 1 : 1)
                {
                  prng_fill(t + i, e, v[i].len);
                  ref_crypt(dec, &rk, e, v[i].len);
                  expect_eq(v[i].p, e, v[i].len, "step %u: batch %s (packet %u of %u, len %u) wrong%s", t, dn(dec), i, n, v[i].len, mem == 1 ? "" : " while memory is exhausted");
                }
            }
        }
      g_fail_at = 0;
      if (mem == 0 && galloc_live() != before)
        prop_fail("step %u: setting or using a key context changed the number of live heap blocks from %d to %d", t, before, galloc_live());
    }
  for (i = 0; i < 10; i++)
    if (c[i].k)
      {
        if (c[i].kind == 1)
          sk_free(c[i].k);
        else
          bk_free(c[i].k);
      }
  if (galloc_live())
    prop_fail("%d heap blocks leaked after all contexts were freed", galloc_live());
  labeln("refused allocations", oom);
  labeln("steps", steps);
}

/* ============================================================ C15 */
typedef struct { uint32_t mxcsr; uint16_t fcw; uint16_t tag; uint64_t fpcr; int rnd; uint64_t df; uint32_t sticky; } fp_t;

static void fp_read(fp_t *f)
{
  memset(f, 0, sizeof *f);
#if defined(__x86_64__)
  {
    uint32_t env[7];
    uint64_t fl;
    __asm__ volatile("stmxcsr %0" : "=m"(f->mxcsr));
    __asm__ volatile("fnstcw %0" : "=m"(f->fcw));
    __asm__ volatile("fnstenv %0\n\tfldenv %0" : "+m"(env));
    f->tag = (uint16_t)env[2];
    __asm__ volatile("pushfq\n\tpopq %0" : "=r"(fl) : : "memory");
    f->df = fl & 0x400;
    f->sticky = (f->mxcsr & 0x3f) | (env[1] & 0x3f) << 8;
    f->mxcsr &= 0xffc0;               /* control bits; status flags are allowed to accumulate */
  }
#elif defined(__aarch64__)
  {
    uint64_t v;
    __asm__ volatile("mrs %0, fpcr" : "=r"(f->fpcr));
    __asm__ volatile("mrs %0, fpsr" : "=r"(v));
    f->sticky = (uint32_t)v & 0x1f;
  }
#endif
  f->rnd = fegetround();
}

static void fp_set(unsigned m)
{
  static const int rn[4] = {
#ifdef FE_TONEAREST
    FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO
#endif
  };
  fesetround(rn[m & 3]);
#if defined(__x86_64__)
  {
    uint32_t mx = 0x1f80 | ((m >> 2 & 1) << 15) | ((m >> 3 & 1) << 6);
    uint16_t cw;
    mx |= (uint32_t)(m & 3) << 13;
    if (m & 0x80)
      { /* pending exception flags of the caller's */
        uint32_t env[7];
        mx |= 0x30;
        __asm__ volatile("fnstenv %0" : "=m"(env));
        env[1] |= 0x30;
        __asm__ volatile("fldenv %0" : : "m"(env));
      }
    if (m & 0x40)
      mx &= ~0x0480u;                  /* unmask invalid and overflow */
    __asm__ volatile("ldmxcsr %0" : : "m"(mx));
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    cw = (uint16_t)((cw & ~0x0f00) | (m & 3) << 10 | (m & 0x10 ? 0x000 : m & 0x20 ? 0x200 : 0x300));
    __asm__ volatile("fldcw %0" : : "m"(cw));
  }
#elif defined(__aarch64__)
  {
    uint64_t v;
    __asm__ volatile("mrs %0, fpcr" : "=r"(v));
    v = (v & ~(1ull << 24)) | (uint64_t)(m >> 2 & 1) << 24;
    __asm__ volatile("msr fpcr, %0" : : "r"(v));
    __asm__ volatile("mrs %0, fpsr" : "=r"(v));
    v = (v & ~0x1full) | (m & 0x80 ? 0x18 : 0);
    __asm__ volatile("msr fpsr, %0" : : "r"(v));
  }
#endif
}

static void fp_default(void)
{
  fesetenv(FE_DFL_ENV);
#if defined(__x86_64__)
  {
    uint32_t mx = 0x1f80;
    __asm__ volatile("ldmxcsr %0" : : "m"(mx));
  }
#endif
}

static fp_t fp_before;
static unsigned fp_mode;
static void fp_pre(void)
{
  fp_set(fp_mode);
  fp_read(&fp_before);
}
static void fp_post(const char *what)
{
  fp_t a;
  fp_read(&a);
  fp_default();
  if (a.tag != fp_before.tag)
    prop_fail("%s left the x87 register stack in use (tag word %04x, was %04x)", what, a.tag, fp_before.tag);
  if (a.mxcsr != fp_before.mxcsr || a.fcw != fp_before.fcw || a.fpcr != fp_before.fpcr || a.rnd != fp_before.rnd)
    prop_fail("%s changed the floating-point control state (MXCSR %04x->%04x, x87 CW %04x->%04x, FPCR %llx->%llx, rounding %x->%x)", what,
              fp_before.mxcsr, a.mxcsr, fp_before.fcw, a.fcw, (unsigned long long)fp_before.fpcr, (unsigned long long)a.fpcr, fp_before.rnd, a.rnd);
  if (fp_before.sticky & ~a.sticky)
    prop_fail("%s cleared exception flags of the caller's (%04x, were %04x)", what, a.sticky, fp_before.sticky);
  if (a.df)
    prop_fail("%s left the direction flag set", what);
}

static void c15(void)
{
  uint8_t cw[8], *p;
  skey *k;
  bkey *q;
  ref_key_t rk;
  static batch_t b;
  unsigned i, len;
  int dec;
  struct dvbcsa_bs_batch_s a[MAXN + 1];
  volatile double x, y;
  gen_cw(cw);
  ref_key(&rk, cw);
  dec = ch_bool(1, 2);
  fp_mode = ch_u(256);
  gen_batch(&b, cw, dec, ch_bool(3, 4), 184, ch_bool(1, g_qemu ? 12 : 4) ? 0 : 8);
  len = b.mode != PL_STRIP && ch_rare(g_qemu || g_san ? 100 : 40) ? gen_long() : gen_len(600);
  p = len > 600 ? area_place(len, 0) : slot_place(SL_X, len, PL_END, 0, 0x44);
  gen_payload(p, len, cw, dec);
  memcpy(L1, p, len);
  for (i = 0; i < b.n; i++)
    {
      memcpy(B1[i], b.v[i].p, b.v[i].len);
      a[i].data = b.v[i].p;
      a[i].len = b.v[i].len;
    }
  a[b.n].data = NULL;
  a[b.n].len = 0;
  desc_cw(cw);
  describe("fp mode %02x, single len=%u, ", fp_mode, len);
  desc_batch(&b, dec);
  nontrivial();
  fp_pre(); k = dvbcsa_key_alloc(); fp_post("dvbcsa_key_alloc");
  fp_pre(); q = dvbcsa_bs_key_alloc(); fp_post("dvbcsa_bs_key_alloc");
  fp_pre(); dvbcsa_bs_batch_size(); fp_post("dvbcsa_bs_batch_size");
  fp_pre(); dvbcsa_key_set(cw, k); fp_post("dvbcsa_key_set");
  fp_pre(); dvbcsa_bs_key_set(cw, q); fp_post("dvbcsa_bs_key_set");
  fp_pre();
  if (dec)
    dvbcsa_decrypt(k, p, len);
  else
    dvbcsa_encrypt(k, p, len);
  fp_post(dec ? "dvbcsa_decrypt" : "dvbcsa_encrypt");
  fp_pre();
  if (dec)
    dvbcsa_bs_decrypt(q, a, b.maxlen);
  else
    dvbcsa_bs_encrypt(q, a, b.maxlen);
  fp_post(dec ? "dvbcsa_bs_decrypt" : "dvbcsa_bs_encrypt");
  fp_pre(); dvbcsa_key_free(k); fp_post("dvbcsa_key_free");
  fp_pre(); dvbcsa_bs_key_free(q); fp_post("dvbcsa_bs_key_free");
  op_count(9);
#if defined(__x86_64__)
  {
    volatile long double s = 0, t[8];
    for (i = 0; i < 8; i++)
      t[i] = i + 1;
    for (i = 0; i < 8; i++)
      s = s * t[i] + 1.0L;
    if (s != 69281.0L)
      prop_fail("x87 arithmetic after library calls gives %Lf", s);
  }
#endif
  x = 1.0;
  y = x / 3.0;
  if (y * 3.0 != x)
    prop_fail("floating-point arithmetic after library calls is wrong");
  ref_crypt(dec, &rk, L1, len);
  expect_eq(p, L1, len, "single %s (len %u) in floating-point mode %02x", dn(dec), len, fp_mode);
  for (i = 0; i < b.n; i++)
    {
      ref_crypt(dec, &rk, B1[i], b.v[i].len < b.maxlen ? b.v[i].len : b.maxlen);
      expect_eq(b.v[i].p, B1[i], b.v[i].len, "batch %s packet %u (len %u) in floating-point mode %02x", dn(dec), i, b.v[i].len, fp_mode);
    }
}

/* ============================================================ C16 */
static void c16(void)
{
  static uint8_t *shm;
  static unsigned shm_n;
  uint8_t cw[8];
  bkey *q;
  unsigned n, i, maxlen, len, valid, mixed;
  int dec, st;
  pid_t pid;
  struct dvbcsa_bs_batch_s a[MAXN + 1];
  if (!shm)
    {
      shm = mmap(NULL, MAXN * 256, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      shm_n = MAXN;
    }
  (void)shm_n;
  gen_cw(cw);
  dec = ch_bool(1, 2);
  n = ch_bool(1, 4) ? bsize() : ch_u(5 < bsize() ? 5 : bsize());
  switch (CH_WT(6, 4, 3, 2, 2, 2))
    {
    case 0:
      maxlen = ch_u(400);
      break;
    case 1:
      maxlen = 8 * ch_u(60);
      break;
    case 2:
      maxlen = 185 + ch_u(16);
      break;
    case 3:
      maxlen = 1u << ch_u(32);
      break;
    case 4:
      maxlen = 0u - 8 * ch_u(40);
      break;
    default:
      maxlen = ch_seed();
    }
  valid = maxlen % 8 == 0 && maxlen <= 184;
  len = gen_len(256);
  mixed = ch_bool(1, 4);
  q = bk_make(cw);
  for (i = 0; i < n; i++)
    {
      prng_fill(i + 1, shm + i * 256, 256);
      memcpy(B1[i], shm + i * 256, 256);
      a[i].data = shm + i * 256;
      a[i].len = mixed ? (len + i * 43) % 257 : len;
    }
  a[n].data = NULL;
  a[n].len = 0;
  if (valid && n && ch_rare(8))
    {                                  /* a packet far longer than maxlen is no reason to refuse it */
      unsigned l = ch_bool(1, 2) ? 0x80000000u + ch_u(200) : ch_bool(1, 2) ? 0xffffffffu - ch_u(200) : 65536u * (1 + ch_u(60000));
      uint8_t *g = giant(0, l);
      if (g)
        {
          i = ch_u(n);
          a[i].data = g;
          a[i].len = l;
          describe("packet %u of %u bytes ", i, l);
          label("packet far longer than maxlen");
        }
    }
  desc_cw(cw);
  describe("%s n=%u len=%u maxlen=%u (%s)", dn(dec), n, len, maxlen, valid ? "valid" : "invalid");
  if (!valid)
    nontrivial();
  label(valid ? "valid maxlen" : maxlen % 8 ? "not a multiple of 8" : "above 184");
  fflush(NULL);
  pid = fork();
  if (pid < 0)
    discard();
  if (!pid)
    {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      struct itimerval it = { { 0, 0 }, { 4, 0 } };
      signal(SIGABRT, SIG_DFL);
      signal(SIGPROF, SIG_DFL);
      setitimer(ITIMER_PROF, &it, NULL);        /* CPU time: a call needs milliseconds */
      if (dec)
        dvbcsa_bs_decrypt(q, a, maxlen);
      else
        dvbcsa_bs_encrypt(q, a, maxlen);
      _exit(0);
    }
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  op_count(1);
  bk_free(q);
  if (valid)
    {
      if (!WIFEXITED(st) || WEXITSTATUS(st))
        prop_fail("batch %s with the valid maxlen %u (n %u, len %u) did not return (status %x)", dn(dec), maxlen, n, len, st);
      return;
    }
  for (i = 0; i < n; i++)
    expect_eq(shm + i * 256, B1[i], 256, "batch %s with the invalid maxlen %u changed packet %u of %u (len %u)", dn(dec), maxlen, i, n, len);
  if (WIFEXITED(st))
    prop_fail("batch %s with the invalid maxlen %u (n %u, len %u) was not refused", dn(dec), maxlen, n, len);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
    prop_fail("batch %s with the invalid maxlen %u (n %u, len %u) was not refused: still running after 4 s of CPU time", dn(dec), maxlen, n, len);
  if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT)
    prop_fail("batch %s with the invalid maxlen %u (n %u, len %u) ended with signal %d instead of an assertion", dn(dec), maxlen, n, len, WTERMSIG(st));
}

/* ============================================================ C17 */
static void c17_relation(const char *api, const uint8_t *A, const uint8_t *Bv, const uint8_t *X, const uint8_t *Y, unsigned len, unsigned j)
{ /* ciphertexts A and Bv differ in block j (j == len / 8: in residue bytes) only; X and Y are their decryptions */
  unsigned i, nb = len / 8;
  for (i = 0; i < len; i++)
    {
      uint8_t e = X[i] ^ Y[i], c;
      if (j == nb)
        {
          c = A[i] ^ Bv[i];
          if (e != c)
            prop_fail("%s decrypt (len %u): a change of residue bytes changes plaintext byte %u by %02x, expected %02x", api, len, i, e, c);
        }
      else if (i / 8 == j - 1 && i < nb * 8)
        {
          c = A[i + 8] ^ Bv[i + 8];
          if (e != c)
            prop_fail("%s decrypt (len %u): an error in block %u changes byte %u of the block before by %02x, expected %02x", api, len, j, i % 8, e, c);
        }
      else if (i / 8 != j && e)
        prop_fail("%s decrypt (len %u): an error in ciphertext block %u changes plaintext byte %u outside blocks %u and %u", api, len, j, i, j - 1, j);
    }
  if (j < nb && !memcmp(X + j * 8, Y + j * 8, 8))
    prop_fail("%s decrypt (len %u): different ciphertext blocks %u decrypt to the same plaintext block", api, len, j);
}

static void c17_batch(void)
{ /* an error of its own in every packet of a batch */
  static uint8_t A[MAXN][184], Bv[MAXN][184], X[MAXN][184];
  unsigned j[MAXN], i, pos, nb, hit = 0;
  uint8_t cw[8];
  uint32_t seed;
  char what[64];
  prng_t r;
  batch_t b;
  bkey *q;
  gen_cw(cw);
  gen_batch(&b, cw, 1, 1, 184, g_qemu ? 16 : 0);
  seed = ch_seed();
  r.s = seed;
  desc_cw(cw);
  desc_batch(&b, 1);
  describe("an error in each packet, seed=%u", seed);
  q = bk_make(cw);
  for (i = 0; i < b.n; i++)
    {
      unsigned len = b.v[i].len;
      uint64_t w = prng_next(&r) >> 8;
      memcpy(A[i], b.v[i].p, len);
      memcpy(Bv[i], A[i], len);
      nb = len / 8;
      j[i] = 0;
      if (len < 9)
        continue;
      pos = 8 + (unsigned)(w % (len - 8));
      Bv[i][pos] ^= (uint8_t)(1 + (w >> 32) % 255);
      j[i] = pos / 8;
      if (w >> 50 & 1)
        Bv[i][j[i] * 8] ^= (uint8_t)(w >> 40 | 1);
      if (!memcmp(A[i], Bv[i], len))
        Bv[i][pos] ^= 1;
      if (j[i] > nb)
        j[i] = nb;
      hit++;
    }
  bk_crypt(1, q, b.v, b.n, b.maxlen, 0);
  placed_check_all(&b, 0, "batch decrypt");
  for (i = 0; i < b.n; i++)
    {
      memcpy(X[i], b.v[i].p, b.v[i].len);
      memcpy(b.v[i].p, Bv[i], b.v[i].len);
    }
  bk_crypt(1, q, b.v, b.n, b.maxlen, 0);
  placed_check_all(&b, 0, "batch decrypt");
  for (i = 0; i < b.n; i++)
    if (j[i])
      {
        snprintf(what, sizeof what, "packet %u of %u: batch", i, b.n);
        c17_relation(what, A[i], Bv[i], X[i], b.v[i].p, b.v[i].len, j[i]);
      }
    else
      expect_eq(b.v[i].p, X[i], b.v[i].len, "packet %u of %u: an error elsewhere in the batch shows", i, b.n);
  if (hit)
    nontrivial();
  label("every packet of a batch");
  bk_free(q);
}

static void c17(void)
{
  uint8_t cw[8], A[256], Bv[256], X[256], Y[256];
  unsigned len, api, place, nb, j, pos, nbytes;
  skey *k;
  bkey *q;
  if (ch_bool(1, 4))
    {
      c17_batch();
      return;
    }
  gen_cw(cw);
  len = 9 + ch_u(176);
  nb = len / 8;
  api = ch_bool(1, 2) ? 1 + ch_u(g_qemu ? 6 : 30) : 0;
  place = ch_u(256);
  k = sk_make(cw);
  q = bk_make(cw);
  gen_payload(A, len, cw, 1);
  memcpy(Bv, A, len);
  pos = 8 + ch_u(len - 8);
  nbytes = 0;
  if (pos < nb * 8)
    { /* error pattern confined to block pos/8 */
      j = pos / 8;
      do
        {
          unsigned at = j * 8 + (nbytes ? ch_u(8) : pos % 8);
          Bv[at] ^= (uint8_t)(1 + ch_u(255));
          nbytes++;
        }
      while (nbytes < 8 && ch_bool(1, 3));
      if (!memcmp(A, Bv, len))
        Bv[pos] ^= 1;
    }
  else
    {
      j = nb;                          /* residue */
      Bv[pos] ^= (uint8_t)(1 + ch_u(255));
    }
  desc_cw(cw);
  describe("decrypt api=%s len=%u error in %s %u at byte %u, ct=", api ? "batch" : "single", len, j < nb ? "block" : "residue", j, pos);
  hexcat(A, len < 64 ? len : 64);
  nontrivial();
  memcpy(X, A, len);
  proc((int)api, 1, k, q, X, len, place);
  memcpy(Y, Bv, len);
  proc((int)api, 1, k, q, Y, len, place + 1);
  c17_relation(api ? "batch" : "single", A, Bv, X, Y, len, j);
  label(j == nb ? "residue" : "block");
  label(api ? "batch" : "single");
  sk_free(k);
  bk_free(q);
}

/* ============================================================ C18 */
static void c18(void)
{
  uint8_t cw[8], *p, *map;
  ref_key_t rk;
  skey *k;
  size_t ml, len;
  int dec, endf;
  unsigned m;
  gen_cw(cw);
  dec = ch_bool(1, 2);
  endf = ch_bool(1, 2);
  m = CH_WT(4, 4, 6, 3, 1);
  switch (m)
    {
    case 0:
      len = 185 + ch_u(2000);
      break;
    case 1:
      len = 2000 + ch_u(20000);
      break;
    case 2:                            /* around powers of two */
      len = ((size_t)1 << (8 + ch_u(g_qemu ? 6 : 12))) + ch_u(24) - 10;
      break;
    case 3:                            /* around 65536 multiples */
      len = 65536u * (1 + ch_u(g_qemu ? 1 : 4)) + ch_u(40) - 16;
      break;
    default:
      len = 20000 + ch_u(g_qemu ? 20000 : g_thorough ? 2000000 : 600000);
    }
  if (len > sizeof L1)
    len = sizeof L1;
  ref_key(&rk, cw);
  k = sk_make(cw);
  p = big_alloc(len, endf, &ml, &map);
  if (!p)
    discard();
  prng_fill(ch_seed(), p, len);
  memcpy(L1, p, len);
  memcpy(L2, p, len);
  desc_cw(cw);
  describe("%s len=%lu %s-flush data=", dn(dec), (unsigned long)len, endf ? "end" : "start");
  hexcat(p, 16);
  describe("..");
  nontrivial();
  sk_crypt(dec, k, p, (unsigned)len);
  ref_crypt(dec, &rk, L1, len);
  expect_eq(p, L1, len, "single %s of a %lu-byte payload", dn(dec), (unsigned long)len);
  if (ch_bool(1, 3))
    {
      sk_crypt(!dec, k, p, (unsigned)len);
      expect_eq(p, L2, len, "single %s after %s of a %lu-byte payload", dn(!dec), dn(dec), (unsigned long)len);
      label("round trip");
    }
  label(m == 0 ? "<2k" : len < 65536 ? "<64k" : ">=64k");
  labeln("bytes", len);
  big_free(map, ml);
  sk_free(k);
}

/* ============================================================ C19 */
/* For MemorySanitizer: calls all of whose working storage gets initialised, so that any use of an uninitialised
   value is the library's own fault.  (Unused lanes and the tails of short packets carry stale data by design.) */
static void c19_msan(void)
{
  uint8_t cw[8];
  static batch_t b;
  unsigned i, len, what = CH_WT(2, 2, 3);
  bkey *q;
  int dec;
  if (what == 0)
    c01();
  else if (what == 1)
    c02();
  else
    {
      gen_cw(cw);
      dec = ch_bool(1, 2);
      len = ch_bool(1, 2) ? 184 : 8 * ch_u(24);
      b.n = bsize();
      b.mode = ch_u(3);
      b.shape = ch_u(32);
      b.maxlen = len ? 8 * ch_u(len / 8 + 1) : 0;
      if (ch_bool(2, 3))
        b.maxlen = len;
      for (i = 0; i < b.n; i++)
        b.v[i].len = len;
      batch_place(&b, 0);
      for (i = 0; i < b.n; i++)
        prng_fill(ch_seed(), b.v[i].p, len);
      q = bk_make(cw);
      if (ch_bool(1, 4))
        bk_set(cw, q);
      desc_cw(cw);
      desc_batch(&b, dec);
      bk_crypt(dec, q, b.v, b.n, b.maxlen, 0);
      for (i = 0; i < b.n; i++)
        {
          unsigned j;
          volatile unsigned sink = 0;
          for (j = 0; j < len; j++)
            if (b.v[i].p[j])           /* reported here when the result is uninitialised */
              sink++;
        }
      bk_free(q);
      label("full batch");
    }
  label("memory sanitizer");
}

static void c19(void)
{ /* everything, under sanitizers */
  if (g_msan)
    {
      c19_msan();
      nontrivial();
      return;
    }
  switch (CH_WT(2, 2, 3, 3, 3, 2, 2))
    {
    case 0: c01(); break;
    case 1: c02(); break;
    case 2: c04(); break;
    case 3: c05(); break;
    case 4: c06(); break;
    case 5: history(16); break;
    default: c08(); break;
    }
  nontrivial();
}

/* ============================================================ C20 */
static void c20(void)
{
  uint8_t cw[8], cw2[8], A[256], X[256], Y[256];
  unsigned api, len, place, i, bit, how;
  int dec, same;
  skey *k, *k2;
  bkey *q, *q2;
  gen_cw(cw);
  dec = ch_bool(1, 2);
  api = ch_bool(1, 2) ? 1 + ch_u(g_qemu ? 4 : 20) : 0;
  place = ch_u(256);
  len = 24 + ch_u(161);
  gen_payload(A, len, cw, dec);
  k = sk_make(cw);
  q = bk_make(cw);
  memcpy(X, A, len);
  proc((int)api, dec, k, q, X, len, place);
  k2 = sk_new();
  q2 = bk_new();
  how = ch_u(4);
  desc_cw(cw);
  describe("%s api=%s len=%u data=", dn(dec), api ? "batch" : "single", len);
  hexcat(A, len < 64 ? len : 64);
  nontrivial();
  for (i = 0; i < (how ? 3u : g_qemu ? 16u : 64u); i++)
    {
      if (how)
        gen_cw_rel(cw2, cw);
      else
        {
          bit = g_qemu ? (i * 4 + place) % 64 : i;
          memcpy(cw2, cw, 8);
          cw2[bit / 8] ^= (uint8_t)(1u << (bit % 8));
        }
      same = !memcmp(cw, cw2, 8);
      if (api)
        bk_set(cw2, q2);
      else
        sk_set(cw2, k2);
      memcpy(Y, A, len);
      proc((int)api, dec, k2, q2, Y, len, place);
      if (!same && !memcmp(X, Y, len))
        prop_fail("%s %s: control words %02x%02x%02x%02x%02x%02x%02x%02x and %02x%02x%02x%02x%02x%02x%02x%02x give the same result (len %u)", api ? "batch" : "single", dn(dec),
                  cw[0], cw[1], cw[2], cw[3], cw[4], cw[5], cw[6], cw[7], cw2[0], cw2[1], cw2[2], cw2[3], cw2[4], cw2[5], cw2[6], cw2[7], len);
      if (same)
        expect_eq(Y, X, len, "the same control word gives different results");
      else
        { /* both the block part and the stream part must notice */
          if (!memcmp(X, Y, 8))
            prop_fail("%s %s: the first block ignores the difference between two control words (len %u)", api ? "batch" : "single", dn(dec), len);
          labeln("differing pairs", 1);
        }
      { /* and each result is the one the standard assigns to exactly this control word */
        ref_key_t rk;
        memcpy(B3[0], A, len);
        ref_key(&rk, cw2);
        ref_crypt(dec, &rk, B3[0], len);
        expect_eq(Y, B3[0], len, "%s %s under control word %02x%02x%02x%02x%02x%02x%02x%02x is not DVB-CSA under that control word (len %u)", api ? "batch" : "single", dn(dec),
                  cw2[0], cw2[1], cw2[2], cw2[3], cw2[4], cw2[5], cw2[6], cw2[7], len);
      }
    }
  label(how ? "related control words" : "single-bit neighbours");
  sk_free(k);
  sk_free(k2);
  bk_free(q);
  bk_free(q2);
}

/* ============================================================ C22 */
static uint64_t w_new[2], w_free[2], w_key[2], w_s8, w_sblk, w_b8, w_bblk;
static void work_limit(uint64_t w, const char *fmt, ...)
{
  va_list ap;
  g_work_limit = 3 * w + 2000;
  va_start(ap, fmt);
  vsnprintf(g_work_what, sizeof g_work_what, fmt, ap);
  va_end(ap);
}
static uint64_t lim_single(size_t len) { return w_s8 + w_sblk * ((len + 7) / 8); }
static uint64_t lim_batch(unsigned maxlen) { return w_b8 + w_bblk * (maxlen / 8); }

/* What short calls cost in this build, the yardstick for all others. */
static void work_calibrate(void)
{
  static const uint8_t cw[8] = { 0x5a, 0x11, 0xc7, 0x32, 0x9e, 0x80, 0x4b, 0x69 };
  static uint8_t d[MAXN][256];
  pk_t v[MAXN];
  unsigned i, r;
  uint64_t w[2][2], c[2][2];
  skey *k;
  bkey *q;
  k = sk_new();
  w_new[0] = g_work;
  q = bk_new();
  w_new[1] = g_work;
  sk_set(cw, k);
  w_key[0] = g_work;
  bk_set(cw, q);
  w_key[1] = g_work;
  for (i = 0; i < bsize(); i++)
    {
      v[i].p = slot_place((int)i, 24, PL_END, 0, 0x44);
      v[i].len = 24;
    }
  for (r = 0; r < 2; r++)
    {
      int dec;
      for (dec = 0; dec < 2; dec++)
        {
          for (i = 0; i < bsize(); i++)
            {
              prng_fill(i + 1, d[i], 24);
              memcpy(v[i].p, d[i], 24);
              v[i].len = r ? 24 : 8;
            }
          sk_crypt(dec, k, v[0].p, r ? 24 : 8);
          w[r][dec] = g_work;
          bk_crypt(dec, q, v, bsize(), r ? 24 : 8, 0);
          c[r][dec] = g_work;
        }
    }
  sk_free(k);
  w_free[0] = g_work;
  bk_free(q);
  w_free[1] = g_work;
#define MAX2(a) ((a)[0] > (a)[1] ? (a)[0] : (a)[1])
  w_s8 = MAX2(w[0]);
  w_b8 = MAX2(c[0]);
  w_sblk = MAX2(w[1]) > w_s8 ? (MAX2(w[1]) - w_s8) / 2 + 1 : 1;
  w_bblk = MAX2(c[1]) > w_b8 ? (MAX2(c[1]) - w_b8) / 2 + 1 : 1;
#undef MAX2
  if (getenv("WORK_DEBUG"))
    fprintf(stderr, "key %llu %llu single %llu + %llu/8 bytes, batch %llu + %llu/8 bytes\n", (unsigned long long)w_key[0], (unsigned long long)w_key[1], (unsigned long long)w_s8, (unsigned long long)w_sblk, (unsigned long long)w_b8, (unsigned long long)w_bblk);
}

static void c22(void)
{
  uint8_t cw[8], *p;
  static batch_t b;
  unsigned i, len, reps, mode = CH_WT(12, 12, 4, 2, 1, 1), api;
  int dec;
  skey *k[8];
  bkey *q[8];
  if (!g_count_work)
    discard();
  if (!w_s8)
    work_calibrate();
  if (!w_s8 || !w_b8)
    discard();                         /* no instrumented code: nothing to measure */
  gen_cw(cw);
  dec = ch_bool(1, 2);
  desc_cw(cw);
  switch (mode)
    {
    case 0:                            /* one payload of any length and content */
      k[0] = sk_make(cw);
      len = ch_bool(1, 4) ? gen_long() : gen_len(1200);
      p = slot_place(SL_X, len <= MAXL ? len : 0, CH_WT(3, 1) ? PL_START : PL_END, 0, 0x31);
      if (len > MAXL)
        p = L1;
      gen_payload(p, len, cw, dec);
      describe("%s len=%u", dn(dec), len);
      work_limit(lim_single(len), "three times what short payloads cost per block (len %u)", len);
      sk_crypt(dec, k[0], p, len);
      if (len >= 16)
        nontrivial();
      label(len > 4096 ? "single, > 4 KB" : "single");
      labeln("steps of single calls", g_work);
      g_work_limit = ~(uint64_t)0;
      sk_free(k[0]);
      break;
    case 1:                            /* any batch */
      q[0] = bk_make(cw);
      gen_batch(&b, cw, dec, 0, (unsigned[]){ 184, 400, 4000 }[CH_WT(3, 1, 1)], 0);
      if (b.n && ch_bool(1, 3))
        {                              /* a packet far longer than maxlen costs no more */
          unsigned at = ch_u(b.n);
          size_t l = ch_bool(1, 2) ? 0x80000000u + ch_u(200) : 65536u * (size_t)(1 + ch_u(60000));
          int flat = ch_bool(1, 2);
          uint8_t *g;
          if (flat)
            l = sizeof L1 / 2 + ch_u(1000);
          g = flat ? L1 : giant(0, l);
          if (flat)
            memset(L1, (int[]){ 0xff, 0, 0x47, 0x55 }[CH_WT(3, 2, 1, 1)], l);
          if (g)
            {
              if (!flat)
                prng_fill(ch_seed(), g, MAXL);
              b.v[at].p = g;
              b.v[at].len = (unsigned)l;
              label("packet >= 64 KB");
            }
        }
      desc_batch(&b, dec);
      work_limit(lim_batch(b.maxlen), "three times what a full batch costs (n %u, maxlen %u)", b.n, b.maxlen);
      bk_crypt(dec, q[0], b.v, b.n, b.maxlen, 0);
      if (b.n && b.maxlen >= 16)
        nontrivial();
      label("batch");
      labeln("steps of batch calls", g_work);
      g_work_limit = ~(uint64_t)0;
      bk_free(q[0]);
      break;
    case 2:                            /* key set-up */
      k[0] = sk_new();
      q[0] = bk_new();
      reps = 1 + ch_u(20);
      for (i = 0; i < reps; i++)
        {
          work_limit(w_key[0], "three times what setting another control word costs");
          sk_set(cw, k[0]);
          work_limit(w_key[1], "three times what setting another control word costs (batch)");
          bk_set(cw, q[0]);
          g_work_limit = ~(uint64_t)0;
          gen_cw(cw);
        }
      describe("%u key sets", reps);
      nontrivial();
      label("key set");
      sk_free(k[0]);
      bk_free(q[0]);
      break;
    case 3:                            /* the cost does not grow with the number of calls made */
      api = ch_u(2);
      reps = (unsigned[]){ 300, 1100, 4200 }[CH_WT(4, 2, 1)];
      if (api && reps > 1100)
        reps = 1100;
      describe("%u x alloc, set, call, free (%s)", reps, api ? "batch" : "single");
      p = slot_place(SL_X, 16, PL_END, 0, 0x31);
      prng_fill(ch_seed(), p, 16);
      b.v[0].p = p;
      b.v[0].len = 16;
      for (i = 0; i < reps; i++)
        {
          unsigned j, live = i % 8 + 1;
          for (j = 0; j < live; j++)
            {
              work_limit(w_new[api], "three times what the first allocation costs (%u earlier)", i);
              if (api)
                q[j] = bk_new();
              else
                k[j] = sk_new();
              work_limit(w_key[api], "three times what setting a control word costs at first (%u earlier)", i);
              if (api)
                bk_set(cw, q[j]);
              else
                sk_set(cw, k[j]);
            }
          if (api)
            {
              work_limit(lim_batch(16), "three times what the call costs at first (%u earlier)", i);
              bk_crypt(dec, q[0], b.v, 1, 16, 0);
            }
          else
            {
              work_limit(lim_single(16), "three times what the call costs at first (%u earlier)", i);
              sk_crypt(dec, k[0], p, 16);
            }
          for (j = live; j-- > 0;)
            {
              work_limit(w_free[api], "three times what the first release costs (%u earlier)", i);
              if (api)
                bk_free(q[j]);
              else
                sk_free(k[j]);
            }
          g_work_limit = ~(uint64_t)0;
          cw[i % 8]++;
        }
      nontrivial();
      label("long history");
      break;
    case 4:                            /* ... nor with the number of contexts in use */
      {
        static void *c[6000];
        unsigned order, seed;
        api = ch_u(2);
        reps = api ? 500 + ch_u(1500) : 1500 + ch_u(4500);
        order = ch_u(3);
        seed = ch_seed();
        describe("%u live contexts (%s), released in order %u", reps, api ? "batch" : "single", order);
        p = slot_place(SL_X, 16, PL_END, 0, 0x31);
        prng_fill(ch_seed(), p, 16);
        b.v[0].p = p;
        b.v[0].len = 16;
#define LIVE_CALL(call) (WORK_BEGIN(), call, WORK_END())
        for (i = 0; i < reps; i++)
          {
            work_limit(w_new[api], "three times what the first allocation costs (%u contexts live)", i);
            LIVE_CALL(c[i] = api ? (void *)dvbcsa_bs_key_alloc() : (void *)dvbcsa_key_alloc());
            if (!c[i])
              break;
            work_limit(w_key[api], "three times what setting a control word costs at first (%u contexts live)", i);
            if (api)
              LIVE_CALL(dvbcsa_bs_key_set(cw, c[i]));
            else
              LIVE_CALL(dvbcsa_key_set(cw, c[i]));
            cw[i % 8]++;
          }
        reps = i;
        if (reps && api)
          {
            work_limit(lim_batch(16), "three times what the call costs at first (%u contexts live)", i);
            bk_crypt(dec, c[seed % reps], b.v, 1, 16, 0);
          }
        else if (reps)
          {
            work_limit(lim_single(16), "three times what the call costs at first (%u contexts live)", i);
            sk_crypt(dec, c[seed % reps], p, 16);
          }
        for (i = 0; i < reps; i++)
          {
            unsigned j = order == 0 ? i : order == 1 ? reps - 1 - i : (i ^ 1) < reps ? i ^ 1 : i;
            work_limit(w_free[api], "three times what the first release costs (%u contexts live)", reps - i);
            if (api)
              LIVE_CALL(dvbcsa_bs_key_free(c[j]));
            else
              LIVE_CALL(dvbcsa_key_free(c[j]));
          }
        g_work_limit = ~(uint64_t)0;
        nontrivial();
        label("many live contexts");
      }
      break;
    default:                           /* very long payloads */
      k[0] = sk_make(cw);
      len = (1u << (17 + ch_u(4))) - 20 + ch_u(40);
      if (len > sizeof L1)
        len = sizeof L1;
      prng_fill(ch_seed(), L1, len);
      describe("%s len=%u", dn(dec), len);
      work_limit(lim_single(len), "three times what short payloads cost per block (len %u)", len);
      sk_crypt(dec, k[0], L1, len);
      nontrivial();
      label("single, > 100 KB");
      g_work_limit = ~(uint64_t)0;
      sk_free(k[0]);
    }
}

/* ============================================================ C23 */
/* Every call runs on a stack of its own, painted beforehand, with an
   inaccessible page below: how deep the paint is gone is what the call needed. */
#define ST_SIZE (384u << 10)
#define ST_SLACK 8192u
static uint8_t *st_base;
static ucontext_t st_main, st_ctx;
static struct { int op, dec; const void *k; void *kw; const uint8_t *cw; uint8_t *p; unsigned len; const struct dvbcsa_bs_batch_s *a; } st;
static uint64_t st_paint = 0xc3a55a3c96e1781eull;
static size_t st_key[2], st_single, st_batch;

static void st_run(void)
{
  switch (st.op)
    {
    case 0: dvbcsa_key_set(st.cw, st.kw); break;
    case 1: dvbcsa_bs_key_set(st.cw, st.kw); break;
    case 2:
      if (st.dec)
        dvbcsa_decrypt(st.k, st.p, st.len);
      else
        dvbcsa_encrypt(st.k, st.p, st.len);
      break;
    case 3:
      if (st.dec)
        dvbcsa_bs_decrypt(st.k, st.a, st.len);
      else
        dvbcsa_bs_encrypt(st.k, st.a, st.len);
      break;
    case 4: st.kw = dvbcsa_key_alloc(); break;
    case 5: st.kw = dvbcsa_bs_key_alloc(); break;
    case 6: dvbcsa_key_free(st.kw); break;
    case 7: dvbcsa_bs_key_free(st.kw); break;
    }
}

/* runs st on the painted stack; bytes of it used */
static size_t st_depth(void)
{
  static size_t clean;                 /* painted from the base up to here */
  uint64_t *w, *e;
  if (!st_base)
    {
      st_base = mmap(NULL, ST_SIZE + 65536 * 2, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (st_base == MAP_FAILED || mprotect(st_base + 65536, ST_SIZE, PROT_READ | PROT_WRITE))
        {
          perror("stack");
          exit(2);
        }
      st_base += 65536;
    }
  e = (uint64_t *)(st_base + ST_SIZE);
  for (w = (uint64_t *)(st_base + clean); w < e; w++)
    *w = st_paint;
  if (getcontext(&st_ctx))
    discard();
  st_ctx.uc_stack.ss_sp = st_base;
  st_ctx.uc_stack.ss_size = ST_SIZE;
  st_ctx.uc_link = &st_main;
  makecontext(&st_ctx, st_run, 0);
  swapcontext(&st_main, &st_ctx);
  op_count(1);
  for (w = (uint64_t *)st_base; w < e && *w == st_paint; w++)
    ;
  clean = (size_t)((uint8_t *)w - st_base) & ~(size_t)7;
  return ST_SIZE - clean;
}

static void st_check(size_t got, size_t base, size_t room, const char *what)
{
  labeln("stack bytes of calls", got);
  if (got > room)
    prop_fail("%s needs %zu bytes of stack, the room it may take is %zu", what, got, room);
  if (got > base + ST_SLACK)
    prop_fail("%s needs %zu bytes of stack, simple calls need %zu", what, got, base);
}

static size_t st_room_batch(void) { return 2u * 184u * bsize() + 65536u; }
#define ST_ROOM 16384u

static size_t st_crypt1(int dec, const skey *k, uint8_t *p, unsigned len)
{
  st.op = 2;
  st.dec = dec;
  st.k = k;
  st.p = p;
  st.len = len;
  return st_depth();
}
static size_t st_cryptn(int dec, const bkey *k, const pk_t *v, unsigned n, unsigned maxlen)
{
  static struct dvbcsa_bs_batch_s a[MAXN + 1];
  unsigned i;
  for (i = 0; i < n; i++)
    {
      a[i].data = v[i].p;
      a[i].len = v[i].len;
    }
  a[n].data = NULL;
  st.op = 3;
  st.dec = dec;
  st.k = k;
  st.a = a;
  st.len = maxlen;
  return st_depth();
}
static size_t st_set(int bs, const uint8_t *cw, void *k)
{
  st.op = bs;
  st.cw = cw;
  st.kw = k;
  return st_depth();
}

static void st_calibrate(void)
{
  static const uint8_t cw[8] = { 0x5a, 0x11, 0xc7, 0x32, 0x9e, 0x80, 0x4b, 0x69 };
  static uint8_t d[MAXN][184];
  pk_t v[MAXN];
  skey *k = dvbcsa_key_alloc();
  bkey *q = dvbcsa_bs_key_alloc();
  unsigned i, r;
  if (!k || !q)
    discard();
  for (r = 0; r < 4; r++)              /* the first calls may load library functions */
    {
      size_t x;
      int dec = r & 1;
      x = st_set(0, cw, k);
      if (r >= 2 && x > st_key[0])
        st_key[0] = x;
      x = st_set(1, cw, q);
      if (r >= 2 && x > st_key[1])
        st_key[1] = x;
      for (i = 0; i < bsize(); i++)
        {
          prng_fill(i + 1, d[i], 184);
          v[i].p = d[i];
          v[i].len = 184;
        }
      x = st_crypt1(dec, k, d[0], 184);
      if (r >= 2 && x > st_single)
        st_single = x;
      x = st_cryptn(dec, q, v, bsize(), 184);
      if (r >= 2 && x > st_batch)
        st_batch = x;
    }
  dvbcsa_key_free(k);
  dvbcsa_bs_key_free(q);
  if (getenv("WORK_DEBUG"))
    fprintf(stderr, "stack: key %zu %zu, single %zu, batch %zu\n", st_key[0], st_key[1], st_single, st_batch);
}

static void c23(void)
{
  static batch_t b;
  uint8_t cw[8], *p;
  unsigned mode = CH_WT(8, 8, 2, 1), len, i, reps;
  int dec;
  skey *k;
  bkey *q;
  if (g_san)
    discard();
  if (!st_single)
    st_calibrate();
  gen_cw(cw);
  dec = ch_bool(1, 2);
  desc_cw(cw);
  switch (mode)
    {
    case 0:                            /* one payload of any length and content */
      k = sk_make(cw);
      len = CH_WT(1, 2) ? gen_long() : gen_len(1200);
      p = len > MAXL ? L1 + ch_u(16) : slot_place(SL_X, len, PL_END, 0, 0x31);
      if (len > 8192 && ch_bool(1, 2))
        memset(p, (int[]){ 0, 0xff, 0x47, 0x55 }[CH_WT(1, 1, 1, 1)], len);
      else
        gen_payload(p, len, cw, dec);
      describe("%s len=%u", dn(dec), len);
      st_check(st_crypt1(dec, k, p, len), st_single, ST_ROOM, "a single-packet call");
      if (len >= 16)
        nontrivial();
      label(len > 4096 ? "single, > 4 KB" : "single");
      sk_free(k);
      break;
    case 1:                            /* any batch */
      q = bk_make(cw);
      gen_batch(&b, cw, dec, 0, (unsigned[]){ 184, 400, 4000 }[CH_WT(3, 1, 1)], 0);
      if (b.n && ch_bool(1, 3))
        {                              /* one packet far beyond maxlen */
          unsigned at = ch_u(b.n);
          b.v[at].p = L1;
          b.v[at].len = ch_bool(1, 3) ? (unsigned)sizeof L1 - ch_u(100) : gen_long();
          label("packet far beyond maxlen");
        }
      desc_batch(&b, dec);
      st_check(st_cryptn(dec, q, b.v, b.n, b.maxlen), st_batch, st_room_batch(), "a batch call");
      if (b.n && b.maxlen >= 16)
        nontrivial();
      label("batch");
      bk_free(q);
      break;
    case 2:                            /* histories, on contexts allocated and released there too */
      reps = 1 + (ch_rare(40) ? ch_u(800) : ch_u(24));
      describe("%u x alloc, set, call, free", reps);
      p = slot_place(SL_X, 64, PL_END, 0, 0x31);
      prng_fill(ch_seed(), p, 64);
      b.v[0].p = p;
      b.v[0].len = 64;
      for (i = 0; i < reps; i++)
        {
          st.op = 4;
          st_check(st_depth(), st_key[0], ST_ROOM, "allocating a context");
          if (!(k = st.kw))
            discard();
          st_check(st_set(0, cw, k), st_key[0], ST_ROOM, "setting a control word");
          st_check(st_crypt1(dec, k, p, 1 + i % 64), st_single, ST_ROOM, "a single-packet call");
          st.op = 6;
          st.kw = k;
          st_check(st_depth(), st_key[0], ST_ROOM, "freeing a context");
          st.op = 5;
          st_check(st_depth(), st_key[1], ST_ROOM, "allocating a batch context");
          if (!(q = st.kw))
            discard();
          st_check(st_set(1, cw, q), st_key[1], ST_ROOM, "setting a control word (batch)");
          st_check(st_cryptn(dec, q, b.v, 1, 8 + i % 8 * 8), st_batch, st_room_batch(), "a batch call");
          st.op = 7;
          st.kw = q;
          st_check(st_depth(), st_key[1], ST_ROOM, "freeing a batch context");
          gen_cw(cw);
        }
      nontrivial();
      label("history");
      break;
    default:                           /* very long payloads */
      k = sk_make(cw);
      len = (1u << (g_qemu ? 14 : 16 + ch_u(4))) - 20 + ch_u(40);
      if (len > sizeof L1)
        len = sizeof L1;
      fill_kind(ch_u(NFILL), ch_seed(), L1, len, cw);
      describe("%s len=%u", dn(dec), len);
      st_check(st_crypt1(dec, k, L1, len), st_single, ST_ROOM, "a single-packet call");
      nontrivial();
      label("single, > 100 KB");
      sk_free(k);
    }
}

void c21(void);
const prop_t g_props[] = {
  { "C01", c01 }, { "C02", c02 }, { "C03", c03 }, { "C04", c04 }, { "C05", c05 },
  { "C06", c06 }, { "C07", c07 }, { "C08", c08 }, { "C09", c09 }, { "C10", c10 },
  { "C11", c11 }, { "C12", c12 }, { "C13", c13 }, { "C14", c14 }, { "C15", c15 },
  { "C16", c16 }, { "C17", c17 }, { "C18", c18 }, { "C19", c19 }, { "C20", c20 },
  { "C21", c21 }, { "C22", c22 }, { "C23", c23 },
  { NULL, NULL }
};
