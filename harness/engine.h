/* Property-based testing engine: every generated value is drawn from a recorded
   sequence of choice bytes, so that any failing case can be replayed from the
   sequence alone and shrunk by editing it. */
#ifndef ENGINE_H
#define ENGINE_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* ---------------------------------------------------------- choices */
uint32_t ch_u(uint32_t n);                 /* 0 .. n-1; small bytes give small values */
uint32_t ch_range(uint32_t lo, uint32_t hi); /* inclusive */
int ch_bool(int num, int den);             /* true with probability num/den; byte 0 = false */
int ch_rare(int den);
unsigned ch_wt(unsigned k, const unsigned *w); /* weighted alternative; byte 0 = alternative 0 */
uint32_t ch_seed(void);                    /* 32-bit seed */
void ch_bytes(uint8_t *p, size_t n);
#define CH_WT(...) ch_wt(sizeof((unsigned[]){__VA_ARGS__}) / sizeof(unsigned), (unsigned[]){__VA_ARGS__})

/* derived (not recorded) pseudo-random stream */
typedef struct { uint64_t s; } prng_t;
static inline uint64_t prng_next(prng_t *r)
{
  uint64_t z = (r->s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
void prng_fill(uint64_t seed, uint8_t *p, size_t n);

/* ---------------------------------------------------------- verdicts */
void prop_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void nontrivial(void);                     /* this case counts as non-trivial */
void label(const char *name);              /* count cases by class */
void labeln(const char *name, uint64_t n);
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int  describing(void);                     /* is a description wanted for this case? */
void discard(void) __attribute__((noreturn)); /* case does not apply */
void op_count(uint64_t n);                 /* library calls executed */
void hexcat(const uint8_t *p, size_t n);   /* append hex to the description */

/* ---------------------------------------------------------- memory */
enum { PL_END, PL_START, PL_OFFSET };
typedef struct { uint8_t *page; size_t size; uint8_t *p; size_t len; uint8_t canary; } slot_t;
#define NSLOTS 300
extern slot_t g_slot[NSLOTS];
void arena_init(void);
/* place a buffer of len bytes in slot i; bytes around it (within 96) become canaries */
uint8_t *slot_place(int i, size_t len, int mode, unsigned off, uint8_t canary);
void slot_check(int i, const char *what);
void slot_rw(int i, int writable);
int slot_draw_mode(unsigned *off);
uint8_t *area_place(size_t total, int front);
void area_packet(uint8_t *p, size_t len);  /* in ascending order of address */
void area_done(void);
void area_check(const char *what);
/* big buffer with guard pages, end- or start-flush (slower) */
uint8_t *big_alloc(size_t len, int end_flush, size_t *maplen, uint8_t **map);
void big_free(uint8_t *map, size_t maplen);

/* ---------------------------------------------------------- allocator interception */
typedef struct { void *p; size_t size, align, maplen, datalen; uint8_t *map, *data; int live; unsigned stamp; } galloc_t;
extern int g_track;                        /* intercept allocations while set */
extern int g_fail_at;                      /* fail the n-th intercepted allocation (1..), 0 = never, -1 = all */
extern int g_alloc_seen;                   /* intercepted allocations */
extern uint8_t g_heap_poison;
extern int g_heap_mode;                    /* 0: poison new blocks, 1: recycle stale contents, 2: same but first 16 bytes poisoned */
extern int g_heap_front;                   /* put new blocks right behind a guard page instead of right before one */
galloc_t *galloc_find(const void *p);
int galloc_live(void);
void galloc_protect(const void *p, int writable);
void galloc_reset(void);

void stack_poison(uint8_t v);

/* ---------------------------------------------------------- properties */
typedef struct { const char *id; void (*fn)(void); } prop_t;
extern const prop_t g_props[];
extern const char *g_config;
extern int g_thorough;
extern int g_qemu;
extern int g_san, g_msan;
uint64_t fnv(const uint8_t *p, size_t n, uint64_t h);
extern uint64_t g_digest;                  /* digest properties accumulate here */
void case_begin(void);                     /* resets per-case harness state */
void run_one(void (*fn)(void));            /* one case; discard() returns here */
#endif
