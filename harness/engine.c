#define _GNU_SOURCE
#include "engine.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXCH (1u << 17)
#define NHASH (1u << 21)
#define NLABEL 96
#define NSAMPLE 4

struct shm
{
  volatile uint32_t n;               /* choices recorded / consumed */
  volatile int failed;
  volatile uint64_t idx;             /* current case */
  volatile int over;                 /* the time is up */
  volatile uint64_t evals, nontriv, discarded, ops, distinct;
  char msg[4096];
  char desc[16384];
  struct { char name[48]; uint64_t n; } lab[NLABEL];
  int nlab;
  int nsample;
  char sample[NSAMPLE][3072];
  uint64_t digest;
  uint8_t ch[MAXCH];
};
static struct shm *S;
static uint64_t *H;                  /* hash set of distinct non-trivial cases */

static int mode_replay;
static uint32_t rp_n;                /* replay: number of valid bytes */
static uint32_t pos;
static prng_t rnd;
static int is_nontriv, want_desc;
static sigjmp_buf jb;
static int jb_set;

const char *g_config = "?";
int g_thorough, g_qemu, g_san, g_msan;
uint64_t g_digest;
static unsigned hang_s = 40;

uint64_t fnv(const uint8_t *p, size_t n, uint64_t h)
{
  size_t i;
  for (i = 0; i < n; i++)
    h = (h ^ p[i]) * 0x100000001b3ull;
  return h ^ (h >> 29);
}

void prng_fill(uint64_t seed, uint8_t *p, size_t n)
{
  prng_t r = { seed * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull };
  size_t i;
  uint64_t v = 0;
  for (i = 0; i < n; i++)
    {
      if (i % 8 == 0)
        v = prng_next(&r);
      p[i] = (uint8_t)(v >> (8 * (i % 8)));
    }
}

/* ------------------------------------------------------------ choices */
static uint8_t ch_raw(uint8_t v)
{
  if (mode_replay)
    {
      v = pos < rp_n ? S->ch[pos] : 0;
      pos++;
      return v;
    }
  if (pos >= MAXCH)
    return 0;
  S->ch[pos++] = v;
  S->n = pos;
  return v;
}

uint32_t ch_u(uint32_t n)
{
  uint64_t r;
  uint32_t v;
  int nb, i;
  if (n <= 1)
    return 0;
  nb = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
  r = mode_replay ? 0 : (uint32_t)((prng_next(&rnd) >> 32) * (uint64_t)n >> 32);
  v = 0;
  for (i = nb - 1; i >= 0; i--)
    v = v << 8 | ch_raw((uint8_t)(r >> (8 * i)));
  return v % n;
}

uint32_t ch_range(uint32_t lo, uint32_t hi)
{
  if (hi - lo == 0xffffffffu)
    return lo + ch_seed();
  return lo + ch_u(hi - lo + 1);
}

int ch_bool(int num, int den)
{
  uint8_t b = mode_replay ? 0 : (uint8_t)((prng_next(&rnd) >> 33) % den < (uint64_t)num);
  return ch_raw(b) & 1;
}

int ch_rare(int den)
{ /* for expensive cases: also rare when the choices come from a fuzzer */
  uint8_t b = mode_replay ? 0 : (prng_next(&rnd) >> 33) % den ? 0 : 0xa7;
  return ch_raw(b) == 0xa7;
}

unsigned ch_wt(unsigned k, const unsigned *w)
{
  unsigned i, tot = 0, r;
  if (mode_replay)
    return ch_raw(0) % k;
  for (i = 0; i < k; i++)
    tot += w[i];
  r = (unsigned)((prng_next(&rnd) >> 33) % tot);
  for (i = 0; i < k; i++)
    {
      if (r < w[i])
        break;
      r -= w[i];
    }
  return ch_raw((uint8_t)i) % k;
}

uint32_t ch_seed(void)
{
  uint32_t r = mode_replay ? 0 : (uint32_t)(prng_next(&rnd) >> 32), v = 0;
  int i;
  for (i = 3; i >= 0; i--)
    v = v << 8 | ch_raw((uint8_t)(r >> (8 * i)));
  return v;
}

void ch_bytes(uint8_t *p, size_t n)
{
  size_t i;
  for (i = 0; i < n; i++)
    p[i] = ch_raw(mode_replay ? 0 : (uint8_t)(prng_next(&rnd) >> 40));
}

/* ------------------------------------------------------------ verdicts */
void prop_fail(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap);
  va_end(ap);
  S->failed = 1;
#ifdef FUZZ_TARGET
  fprintf(stderr, "PROP_FAIL: %s\n", S->msg);
  abort();
#else
  fflush(NULL);
  _exit(77);
#endif
}

void nontrivial(void) { is_nontriv = 1; }
int describing(void) { return want_desc; }
void op_count(uint64_t n) { S->ops += n; }

void labeln(const char *name, uint64_t n)
{
  int i;
  for (i = 0; i < S->nlab; i++)
    if (!strcmp(S->lab[i].name, name))
      {
        S->lab[i].n += n;
        return;
      }
  if (i < NLABEL)
    {
      snprintf(S->lab[i].name, sizeof S->lab[i].name, "%s", name);
      S->lab[i].n = n;
      S->nlab++;
    }
}
void label(const char *name) { labeln(name, 1); }

void describe(const char *fmt, ...)
{
  size_t l;
  va_list ap;
  if (!want_desc)
    return;
  l = strlen(S->desc);
  va_start(ap, fmt);
  vsnprintf(S->desc + l, sizeof S->desc - l, fmt, ap);
  va_end(ap);
}

void hexcat(const uint8_t *p, size_t n)
{
  size_t i;
  if (!want_desc)
    return;
  for (i = 0; i < n && i < 400; i++)
    describe("%02x", p[i]);
  if (i < n)
    describe("...");
}

void discard(void)
{
  S->discarded++;
  is_nontriv = 0;
  if (jb_set)
    siglongjmp(jb, 1);
  _exit(0);
}

void run_one(void (*fn)(void))
{
  pos = 0;
  is_nontriv = 0;
  g_digest = 0xcbf29ce484222325ull;
  if (want_desc)
    S->desc[0] = 0;
  case_begin();
  jb_set = 1;
  if (!sigsetjmp(jb, 0))
    fn();
  jb_set = 0;
  S->evals++;
}

/* ------------------------------------------------------------ slots */
slot_t g_slot[NSLOTS];
static size_t PG;
#define SLOT_PAGES 2
#define MARGIN 96

void arena_init(void)
{
  size_t unit, i;
  uint8_t *m;
  PG = (size_t)sysconf(_SC_PAGESIZE);
  if (PG < 4096)
    PG = 4096;
  unit = (SLOT_PAGES + 1) * PG;
  m = mmap(NULL, unit * NSLOTS + PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED)
    {
      perror("mmap");
      exit(2);
    }
  for (i = 0; i < NSLOTS; i++)
    {
      g_slot[i].page = m + PG + i * unit;
      g_slot[i].size = SLOT_PAGES * PG;
      if (mprotect(g_slot[i].page, g_slot[i].size, PROT_READ | PROT_WRITE))
        {
          perror("mprotect");
          exit(2);
        }
    }
}

/* in AddressSanitizer builds everything around a buffer is poisoned as well, so that reads
   are seen too, on either side */
extern void __asan_poison_memory_region(const volatile void *p, size_t n) __attribute__((weak));
extern void __asan_unpoison_memory_region(const volatile void *p, size_t n) __attribute__((weak));
static inline void hide(const void *a, const void *b)
{
  if (__asan_poison_memory_region && (const uint8_t *)b > (const uint8_t *)a)
    __asan_poison_memory_region(a, (size_t)((const uint8_t *)b - (const uint8_t *)a));
}
static inline void unhide(const void *a, const void *b)
{
  if (__asan_unpoison_memory_region && (const uint8_t *)b > (const uint8_t *)a)
    __asan_unpoison_memory_region(a, (size_t)((const uint8_t *)b - (const uint8_t *)a));
}

static void canary_fill(slot_t *s, uint8_t *a, uint8_t *b, int check, const char *what)
{
  uint8_t *q;
  for (q = a; q < b; q++)
    if (!check)
      *q = s->canary ^ (uint8_t)(uintptr_t)q;
    else if (*q != (uint8_t)(s->canary ^ (uint8_t)(uintptr_t)q))
      prop_fail("%s: byte at offset %ld relative to a %lu-byte buffer was modified", what, (long)(q - s->p), (unsigned long)s->len);
}

static void margins(slot_t *s, int check, const char *what)
{
  uint8_t *lo = s->p - MARGIN, *hi = s->p + s->len + MARGIN;
  if (lo < s->page)
    lo = s->page;
  if (hi > s->page + s->size)
    hi = s->page + s->size;
  unhide(lo, hi);
  canary_fill(s, lo, s->p, check, what);
  canary_fill(s, s->p + s->len, hi, check, what);
  hide(lo, s->p);
  hide(s->p + s->len, hi);
}

uint8_t *slot_place(int i, size_t len, int mode, unsigned off, uint8_t canary)
{
  slot_t *s = &g_slot[i];
  if (len > s->size)
    {
      fprintf(stderr, "slot overflow\n");
      exit(2);
    }
  if (s->p)
    unhide(s->page, s->page + s->size);
  s->len = len;
  s->canary = canary;
  if (mode == PL_END)
    s->p = s->page + s->size - len;
  else if (mode == PL_START)
    s->p = s->page;
  else
    s->p = s->page + off % (s->size - len + 1);
  margins(s, 0, "");
  return s->p;
}

void slot_check(int i, const char *what) { margins(&g_slot[i], 1, what); }

void slot_rw(int i, int writable)
{
  mprotect(g_slot[i].page, g_slot[i].size, writable > 0 ? PROT_READ | PROT_WRITE : writable ? PROT_NONE : PROT_READ);
}

/* one large area between guard pages: for long payloads, and for packets that lie one after the
   other in a single buffer */
#define AREA (1u << 20 | 1u << 18)
static uint8_t *area, *area_lo, *area_hi;  /* [lo,hi): in use, with margins */
static struct { uint8_t *p; size_t len; } area_pk[256];
static unsigned area_n;
static uint8_t area_canary(const uint8_t *q) { return (uint8_t)(0x5c ^ (uintptr_t)q ^ (uintptr_t)q >> 8); }

uint8_t *area_place(size_t total, int front)
{ /* total bytes, ending (or, with front, starting) at a guard page, filled with canaries */
  uint8_t *p, *q;
  if (!area)
    {
      area = mmap(NULL, AREA + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (area == MAP_FAILED || mprotect(area + PG, AREA, PROT_READ | PROT_WRITE))
        {
          perror("mmap");
          exit(2);
        }
      area += PG;
    }
  if (total > AREA)
    {
      fprintf(stderr, "area overflow\n");
      exit(2);
    }
  unhide(area_lo, area_hi);
  p = front ? area : area + AREA - total;
  area_lo = p < area + MARGIN ? area : p - MARGIN;
  area_hi = p + total + MARGIN > area + AREA ? area + AREA : p + total + MARGIN;
  unhide(area_lo, area_hi);
  for (q = area_lo; q < area_hi; q++)
    *q = area_canary(q);
  area_n = 0;
  return p;
}

/* packets are added in ascending order of address */
void area_packet(uint8_t *p, size_t len)
{
  hide(area_n ? area_pk[area_n - 1].p + area_pk[area_n - 1].len : area_lo, p);
  area_pk[area_n].p = p;
  area_pk[area_n++].len = len;
}

void area_done(void)
{
  if (area_n)
    hide(area_pk[area_n - 1].p + area_pk[area_n - 1].len, area_hi);
}

void area_check(const char *what)
{
  uint8_t *q = area_lo;
  unsigned i;
  unhide(area_lo, area_hi);
  for (i = 0; i <= area_n; i++)
    {
      uint8_t *e = i < area_n ? area_pk[i].p : area_hi;
      for (; q < e; q++)
        if (*q != area_canary(q))
          prop_fail("%s: byte %ld after the end of packet %u, %ld before the start of packet %u (in memory order) was modified", what,
                    i ? (long)(q - area_pk[i - 1].p - (long)area_pk[i - 1].len) : -1L, i - 1, i < area_n ? (long)(e - q) : -1L, i);
      if (i < area_n)
        q = area_pk[i].p + area_pk[i].len;
    }
}

int slot_draw_mode(unsigned *off)
{
  unsigned m = CH_WT(4, 2, 4);
  *off = 0;
  if (m == PL_OFFSET)
    *off = ch_bool(1, 3) ? 4096 - ch_u(192) : 256 + ch_u(64); /* across a page boundary, or within one page */
  return (int)m;
}

uint8_t *big_alloc(size_t len, int end_flush, size_t *maplen, uint8_t **map)
{
  size_t body = (len + PG - 1) / PG * PG;
  uint8_t *m;
  if (!body)
    body = PG;
  *maplen = body + 2 * PG;
  m = mmap(NULL, *maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED)
    return NULL;
  if (mprotect(m + PG, body, PROT_READ | PROT_WRITE))
    {
      munmap(m, *maplen);
      return NULL;
    }
  *map = m;
  return end_flush ? m + PG + body - len : m + PG;
}

void big_free(uint8_t *map, size_t maplen) { munmap(map, maplen); }

/* ------------------------------------------------------------ allocator */
#define NGALLOC 96
static galloc_t ga[NGALLOC];
int g_track, g_fail_at, g_alloc_seen;
uint8_t g_heap_poison = 0xA5;
int g_heap_mode, g_heap_front;
static unsigned ga_clock;

galloc_t *galloc_find(const void *p)
{
  int i;
  for (i = 0; i < NGALLOC; i++)
    if (ga[i].map && ga[i].p == p)
      return &ga[i];
  return NULL;
}

int galloc_live(void)
{
  int i, n = 0;
  for (i = 0; i < NGALLOC; i++)
    n += ga[i].map && ga[i].live;
  return n;
}

static void ga_unmap(galloc_t *g)
{
  unhide(g->data, g->data + g->datalen);
  munmap(g->map, g->maplen);
}

void galloc_reset(void)
{
  int i;
  for (i = 0; i < NGALLOC; i++)
    {
      if (ga[i].map)
        ga_unmap(&ga[i]);
      memset(&ga[i], 0, sizeof ga[i]);
    }
  g_fail_at = 0;
  g_alloc_seen = 0;
  g_track = 0;
}

static void ga_slack(galloc_t *g, int check)
{
  uint8_t *q, *s = g->p, *e = s + g->size, *z = g->data + g->datalen;
  unhide(g->data, z);
  for (q = g->data; q < z; q++)
    {
      if (q == s)
        q = e;
      if (q == z)
        break;
      if (!check)
        *q = 0xC3;
      else if (*q != 0xC3)
        prop_fail(q < s ? "byte %ld before the start of a %lu-byte heap block was written" : "byte %ld past the end of a %lu-byte heap block was written",
                  (long)(q < s ? s - q : q - e), (unsigned long)g->size);
    }
  if (!check)
    {
      hide(g->data, s);
      hide(e, z);
    }
}

extern void __msan_allocated_memory(const volatile void *p, size_t n) __attribute__((weak));

static void *ga_alloc(size_t align, size_t size)
{
  size_t body, rsize;
  int i;
  galloc_t *g = NULL;
  g_alloc_seen++;
  if (g_fail_at == -1 || g_fail_at == g_alloc_seen)
    {
      errno = ENOMEM;
      return NULL;
    }
  for (i = 0; i < NGALLOC && !g; i++)
    if (!ga[i].map)
      g = &ga[i];
  if (!g)
    {
      for (i = 0; i < NGALLOC; i++)
        if (!ga[i].live && (!g || ga[i].stamp < g->stamp))
          g = &ga[i];
      if (g)
        {
          ga_unmap(g);
          memset(g, 0, sizeof *g);
        }
    }
  if (!g)
    prop_fail("%d blocks allocated by the library were never freed", NGALLOC);
  if (align > PG)
    {
      fprintf(stderr, "odd alignment\n");
      exit(2);
    }
  rsize = (size + align - 1) / align * align;
  body = (rsize + align + PG - 1) / PG * PG;
  g->maplen = body + 2 * PG;
  g->map = mmap(NULL, g->maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (g->map == MAP_FAILED)
    {
      perror("mmap");
      exit(2);
    }
  g->data = g->map + PG;
  g->datalen = body;
  mprotect(g->data, body, PROT_READ | PROT_WRITE);
  /* flush against the upper guard page with exactly the requested alignment:
     never aligned to 2*align when the size permits */
  g->p = g->data + body - rsize;
  if ((uintptr_t)g->p % (2 * align) == 0 && rsize % (2 * align) == 0)
    g->p = (uint8_t *)g->p - align;
  if (g_heap_front)
    g->p = g->data;                    /* guard page directly in front of the block instead */
  g->size = size;
  g->align = align;
  g->live = 1;
  memset(g->p, g_heap_poison, size);
  g->stamp = 0;
  if (g_heap_mode)
    { /* hand out the stale contents of the most recently freed block of this size */
      galloc_t *o = NULL;
      for (i = 0; i < NGALLOC; i++)
        if (ga[i].map && !ga[i].live && ga[i].size == size && (!o || ga[i].stamp > o->stamp))
          o = &ga[i];
      if (o)
        {
          size_t skip = g_heap_mode == 2 ? 16 : 0;
          mprotect(o->data, o->datalen, PROT_READ);
          if (size > skip)
            memcpy((uint8_t *)g->p + skip, (uint8_t *)o->p + skip, size - skip);
          mprotect(o->data, o->datalen, PROT_NONE);
        }
    }
  ga_slack(g, 0);
  if (__msan_allocated_memory && !g_heap_mode)
    __msan_allocated_memory(g->p, size);
  return g->p;
}

void galloc_protect(const void *p, int writable)
{
  galloc_t *g = galloc_find(p);
  if (g && g->live)
    mprotect(g->data, g->datalen, writable ? PROT_READ | PROT_WRITE : PROT_READ);
}

void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n);
void *__real_memalign(size_t a, size_t n);
void *__real_aligned_alloc(size_t a, size_t n);
int __real_posix_memalign(void **r, size_t a, size_t n);
void __real_free(void *p);

extern int g_counting;                  /* the allocator's own work is not the library's */
static void *ga_alloc_uncounted(size_t a, size_t n)
{
  int c = g_counting;
  void *p;
  g_counting = 0;
  p = ga_alloc(a, n);
  g_counting = c;
  return p;
}
#define ga_alloc ga_alloc_uncounted

static inline int tracking(void) { return g_track; }

void *__wrap_malloc(size_t n) { return tracking() ? ga_alloc(16, n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b)
{
  void *p;
  if (!tracking())
    return __real_calloc(a, b);
  p = ga_alloc(16, a * b);
  if (p)
    memset(p, 0, a * b);
  return p;
}
void *__wrap_realloc(void *p, size_t n)
{
  galloc_t *g = p ? galloc_find(p) : NULL;
  void *q;
  if (!tracking() && !g)
    return __real_realloc(p, n);
  q = ga_alloc(16, n);
  if (q && g)
    {
      memcpy(q, p, g->size < n ? g->size : n);
      free(p);
    }
  return q;
}
void *__wrap_memalign(size_t a, size_t n) { return tracking() ? ga_alloc(a < 16 ? 16 : a, n) : __real_memalign(a, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return tracking() ? ga_alloc(a < 16 ? 16 : a, n) : __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void **r, size_t a, size_t n)
{
  void *p;
  if (!tracking())
    return __real_posix_memalign(r, a, n);
  if (a < sizeof(void *) || (a & (a - 1)))
    return EINVAL;
  p = ga_alloc(a, n);
  if (!p)
    return ENOMEM;
  *r = p;
  return 0;
}
void __wrap_free(void *p)
{
  galloc_t *g = p ? galloc_find(p) : NULL;
  int counting = g_counting;
  if (!g)
    {
      if (p && tracking())
        {
          int i;
          for (i = 0; i < NGALLOC; i++)
            if (ga[i].map && (uint8_t *)p >= ga[i].map && (uint8_t *)p < ga[i].map + ga[i].maplen)
              prop_fail("free of a pointer into, not at, a heap block");
        }
      __real_free(p);
      return;
    }
  if (!g->live)
    prop_fail("heap block freed twice");
  g_counting = 0;
  mprotect(g->data, g->datalen, PROT_READ | PROT_WRITE);
  ga_slack(g, 1);
  g->live = 0;
  g->stamp = ++ga_clock;
  mprotect(g->data, g->datalen, PROT_NONE);
  g_counting = counting;
}

/* ------------------------------------------------------------ stack poison */
__attribute__((noinline)) void stack_poison(uint8_t v)
{
  volatile uint8_t buf[96 * 1024];
  memset((void *)buf, v, sizeof buf);
  __asm__ volatile("" : : "r"(buf) : "memory");
}

/* ------------------------------------------------------------ runner */
static const prop_t *find_prop(const char *id)
{
  const prop_t *p;
  for (p = g_props; p->id; p++)
    if (!strcmp(p->id, id))
      return p;
  fprintf(stderr, "unknown property %s\n", id);
  exit(2);
}

static void arm(void)
{
  struct itimerval it = { { 0, 0 }, { (time_t)hang_s, 0 } };
  setitimer(ITIMER_PROF, &it, NULL);
}

static void note_case(int keep_sample)
{
  uint64_t h;
  uint32_t i;
  if (!is_nontriv)
    return;
  S->nontriv++;
  h = fnv((const uint8_t *)S->ch, pos < MAXCH ? pos : MAXCH, 0xcbf29ce484222325ull) | 1;
  if (S->distinct < NHASH / 2)
    {
      for (i = (uint32_t)(h >> 20) % NHASH; H[i] && H[i] != h; i = (i + 1) % NHASH)
        ;
      if (!H[i])
        {
          H[i] = h;
          S->distinct++;
        }
    }
  if (keep_sample && S->nsample < NSAMPLE)
    snprintf(S->sample[S->nsample++], sizeof S->sample[0], "%s", S->desc);
}

static double now(void)
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}

static const char *sig_or_exit(int st, char *b, size_t n)
{
  if (WIFSIGNALED(st))
    snprintf(b, n, "signal %d%s", WTERMSIG(st), WTERMSIG(st) == SIGPROF ? " (no termination within the CPU time limit)" : WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS ? " (invalid memory access)" : WTERMSIG(st) == SIGABRT ? " (abort)" : "");
  else
    snprintf(b, n, "exit status %d", WEXITSTATUS(st));
  return b;
}

/* run one replay candidate in a child; returns nonzero on failure */
static int try_replay(const prop_t *p, const uint8_t *c, uint32_t n, int desc, int quiet)
{
  pid_t pid;
  int st;
  char b[160];
  memcpy(S->ch, c, n);
  S->failed = 0;
  S->msg[0] = 0;
  S->desc[0] = 0;
  fflush(NULL);
  pid = fork();
  if (pid < 0)
    {
      perror("fork");
      exit(2);
    }
  if (!pid)
    {
      if (quiet)
        {
          int fd = open("/dev/null", O_WRONLY);
          dup2(fd, 2);
        }
      mode_replay = 1;
      rp_n = n;
      want_desc = desc;
      arm();
      run_one(p->fn);
      S->n = pos;
      S->digest = g_digest;
      _exit(0);
    }
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return 0;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
    return 0;
  if (!S->msg[0])
    snprintf(S->msg, sizeof S->msg, "the process ended with %s", sig_or_exit(st, b, sizeof b));
  return 1;
}

static void put_json_str(FILE *f, const char *s)
{
  fputc('"', f);
  for (; *s; s++)
    if (*s == '"' || *s == '\\')
      fprintf(f, "\\%c", *s);
    else if ((unsigned char)*s < 32 || (unsigned char)*s > 126)
      fprintf(f, "\\u%04x", (unsigned char)*s);
    else
      fputc(*s, f);
  fputc('"', f);
}

static uint32_t shrink(const prop_t *p, uint8_t *c, uint32_t n, double budget, unsigned *tried)
{
  unsigned hang0 = hang_s;
  double t0 = now();
  uint8_t *d = __real_malloc(MAXCH);
  uint32_t k, i;
  int progress = 1;
  *tried = 0;
  if (hang_s > 10)
    hang_s = 10;
#define TRY(len) (now() - t0 < budget && (++*tried, try_replay(p, d, (len), 0, 1)))
  while (n && !c[n - 1])
    n--;
  while (progress && now() - t0 < budget)
    {
      progress = 0;
      for (k = n / 2 ? n / 2 : 1; k; k /= 2)
        {
          for (i = 0; i + k <= n && now() - t0 < budget;)
            { /* delete */
              memcpy(d, c, i);
              memcpy(d + i, c + i + k, n - i - k);
              if (TRY(n - k))
                {
                  n -= k;
                  memcpy(c, d, n);
                  progress = 1;
                }
              else
                i += k;
            }
          for (i = 0; i + k <= n && now() - t0 < budget; i += k)
            { /* zero */
              uint32_t j, nz = 0;
              for (j = i; j < i + k; j++)
                nz |= c[j];
              if (!nz)
                continue;
              memcpy(d, c, n);
              memset(d + i, 0, k);
              if (TRY(n))
                {
                  memcpy(c, d, n);
                  progress = 1;
                }
            }
        }
      for (i = 0; i < n && now() - t0 < budget; i++)
        { /* lower single bytes */
          unsigned lo = 0, hi = c[i];
          while (lo < hi && now() - t0 < budget)
            {
              unsigned mid = (lo + hi) / 2;
              memcpy(d, c, n);
              d[i] = (uint8_t)mid;
              if (TRY(n))
                {
                  c[i] = (uint8_t)mid;
                  hi = mid;
                  progress = 1;
                }
              else
                lo = mid + 1;
            }
        }
      while (n && !c[n - 1])
        n--;
    }
  __real_free(d);
  hang_s = hang0;
  return n;
}

#ifndef FUZZ_TARGET
int main(int argc, char **argv)
{
  const char *prop = NULL, *replay = NULL, *stats = NULL, *digfile = NULL;
  uint64_t seed = 1, cases = 100, i;
  double tlimit = 60, shrink_s = 25, t0;
  int do_shrink = 1, st, k, minimise = 0;
  long long dump_case = -1;
  const char *hashes = NULL;
  const prop_t *p;
  pid_t pid;
  FILE *f;

  for (k = 1; k < argc; k++)
    {
#define ARG(s) (!strcmp(argv[k], s) && k + 1 < argc)
      if (ARG("--prop")) prop = argv[++k];
      else if (ARG("--seed")) seed = strtoull(argv[++k], NULL, 10);
      else if (ARG("--cases")) cases = strtoull(argv[++k], NULL, 10);
      else if (ARG("--time")) tlimit = atof(argv[++k]);
      else if (ARG("--stats")) stats = argv[++k];
      else if (ARG("--digests")) digfile = argv[++k];
      else if (ARG("--replay")) replay = argv[++k];
      else if (ARG("--hashes")) hashes = argv[++k];
      else if (ARG("--dump-case")) dump_case = atoll(argv[++k]);
      else if (!strcmp(argv[k], "--minimise")) minimise = 1;
      else if (ARG("--config")) g_config = argv[++k];
      else if (ARG("--hang")) hang_s = (unsigned)atoi(argv[++k]);
      else if (ARG("--shrink")) shrink_s = atof(argv[++k]), do_shrink = shrink_s > 0;
      else if (!strcmp(argv[k], "--thorough")) g_thorough = 1;
      else if (!strcmp(argv[k], "--qemu")) g_qemu = 1;
      else if (!strcmp(argv[k], "--san")) g_san = 1;
      else if (!strcmp(argv[k], "--msan")) g_san = g_msan = 1;
      else
        {
          fprintf(stderr, "bad argument %s\n", argv[k]);
          return 2;
        }
    }
  if (!prop)
    return 2;
  p = find_prop(prop);
  t0 = now();
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  H = mmap(NULL, NHASH * sizeof *H, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || H == MAP_FAILED)
    {
      perror("mmap");
      return 2;
    }
  arena_init();
  {
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
  }

  if (replay)
    { /* replay file: raw choice bytes */
      static uint8_t buf[MAXCH];
      size_t n;
      int bad;
      f = fopen(replay, "rb");
      if (!f)
        {
          perror(replay);
          return 2;
        }
      n = fread(buf, 1, sizeof buf, f);
      fclose(f);
      if (minimise)
        {
          unsigned tried;
          if (try_replay(p, buf, (uint32_t)n, 0, 1))
            n = shrink(p, buf, (uint32_t)n, shrink_s, &tried);
          printf("CHOICES: ");
          for (i = 0; i < n; i++)
            printf("%02x", buf[i]);
          printf("\n");
        }
      bad = try_replay(p, buf, (uint32_t)n, 1, 0);
      if (bad)
        printf("FAIL: %s\n", S->msg);
      else
        printf("PASS\n");
      printf("CASE: %s\n", S->desc);
      printf("DIGEST: %016llx\n", (unsigned long long)S->digest);
      return bad ? 1 : 0;
    }

  /* The cases run in a sequence of child processes: the first ones run one case each, so that
     the first calls of a process are met often, later ones hundreds, so that a process also has
     a long history behind it. */
  {
    FILE *df = digfile ? fopen(digfile, "w") : NULL;
    uint64_t first = dump_case >= 0 ? (uint64_t)dump_case : 0, end;
    int over = 0;
    if (digfile && !df)
      return 2;
    if (dump_case >= 0)
      cases = first + 1;
    st = 0;
    for (; first < cases && !over && st == 0; first = end)
      {
        end = first + (first < 16 ? 1 : first < 256 ? 16 : first < 1024 ? 256 : 4096);
        if (end > cases)
          end = cases;
        if (now() - t0 > tlimit)
          break;
        S->over = 0;
        fflush(NULL);
        pid = fork();
        if (pid < 0)
          {
            perror("fork");
            return 2;
          }
        if (!pid)
          {
            for (i = first; i < end; i++)
              {
                int ks;
                if ((i & 7) == 7 && now() - t0 > tlimit)
                  {
                    S->over = 1;
                    break;
                  }
                S->idx = i;
                S->n = 0;
                rnd.s = seed * 0x9E3779B97F4A7C15ull ^ i * 0xBF58476D1CE4E5B9ull ^ 0x5851F42D4C957F2Dull;
                prng_next(&rnd);
                ks = S->nsample < NSAMPLE && i >= (uint64_t)S->nsample * (cases / NSAMPLE);
                want_desc = ks;
                arm();
                run_one(p->fn);
                note_case(ks);
                if (dump_case >= 0)
                  {
                    uint32_t j;
                    printf("CHOICES: ");
                    for (j = 0; j < S->n; j++)
                      printf("%02x", S->ch[j]);
                    printf("\n");
                  }
                if (df)
                  fprintf(df, "%016llx\n", (unsigned long long)g_digest);
              }
            fflush(NULL);
            _exit(0);
          }
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
          ;
        over = S->over;
      }
    if (df)
      fclose(df);
  }
  if (hashes && (f = fopen(hashes, "wb")))
    {
      for (i = 0; i < NHASH; i++)
        if (H[i])
          fwrite(&H[i], 8, 1, f);
      fclose(f);
    }
  f = stats ? fopen(stats, "w") : stdout;
  if (!f)
    {
      perror(stats);
      return 2;
    }
  fprintf(f, "{\"config\":");
  put_json_str(f, g_config);
  fprintf(f, ",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"discarded\":%llu,\"ops\":%llu,\"wall\":%.2f,\"labels\":{",
          (unsigned long long)S->evals, (unsigned long long)S->nontriv, (unsigned long long)S->distinct,
          (unsigned long long)S->discarded, (unsigned long long)S->ops, now() - t0);
  for (k = 0; k < S->nlab; k++)
    {
      if (k)
        fputc(',', f);
      put_json_str(f, S->lab[k].name);
      fprintf(f, ":%llu", (unsigned long long)S->lab[k].n);
    }
  fprintf(f, "},\"samples\":[");
  for (k = 0; k < S->nsample; k++)
    {
      if (k)
        fputc(',', f);
      put_json_str(f, S->sample[k]);
    }
  fprintf(f, "]");
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
      static uint8_t c[MAXCH];
      uint32_t n = S->n, n0 = n;
      unsigned tried = 0, repro = 0;
      char b[160], msg0[4096];
      uint64_t idx = S->idx;
      memcpy(c, S->ch, n);
      if (!S->msg[0])
        snprintf(S->msg, sizeof S->msg, "the process ended with %s", sig_or_exit(st, b, sizeof b));
      snprintf(msg0, sizeof msg0, "%s", S->msg);
      fprintf(f, ",\"killed\":%d", WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL);
      for (k = 0; k < 3; k++)
        repro += (unsigned)try_replay(p, c, n, 0, 1);
      if (do_shrink && repro)
        n = shrink(p, c, n, shrink_s, &tried);
      if (!try_replay(p, c, n, 1, 0))
        snprintf(S->msg, sizeof S->msg, "%s", msg0);
      fprintf(f, ",\"failure\":{\"case\":%llu,\"message\":", (unsigned long long)idx);
      put_json_str(f, S->msg);
      fprintf(f, ",\"first_message\":");
      put_json_str(f, msg0);
      fprintf(f, ",\"reproduced\":%u,\"choices0\":%u,\"shrink_tried\":%u,\"description\":", repro, n0, tried);
      put_json_str(f, S->desc);
      fprintf(f, ",\"choices\":\"");
      for (i = 0; i < n; i++)
        fprintf(f, "%02x", c[i]);
      fprintf(f, "\"}}\n");
      if (stats)
        fclose(f);
      return 1;
    }
  fprintf(f, "}\n");
  if (stats)
    fclose(f);
  return 0;
}
#else
extern void fuzz_pick(const prop_t **p);
static const prop_t *fz;
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
  if (!S)
    {
      S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      arena_init();
      fz = find_prop(getenv("FUZZ_PROP"));
      g_san = 1;
    }
  if (n > MAXCH)
    n = MAXCH;
  memcpy(S->ch, d, n);
  mode_replay = 1;
  rp_n = (uint32_t)n;
  run_one(fz->fn);
  galloc_reset();
  return 0;
}
#endif
