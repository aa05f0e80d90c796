#ifndef COMMON_H
#define COMMON_H
#include "engine.h"
#include "refcsa.h"
#include <dvbcsa/dvbcsa.h>
typedef struct dvbcsa_key_s skey;
typedef struct dvbcsa_bs_key_s bkey;

#define MAXN 256
#define PL_STRIP 4                     /* batch_t.mode: all packets in one buffer */
#define MAXL 8192
#define SL_CW 260
#define SL_ARR 261
#define SL_DECOY 262
#define SL_X 264                       /* free for properties: SL_X .. SL_X+8 */

typedef struct { uint8_t *p; unsigned len; } pk_t;
typedef struct {
  unsigned n, maxlen;
  unsigned mode, shape;
  pk_t v[MAXN];
} batch_t;

/* generators */
void gen_cw(uint8_t cw[8]);
void gen_cw_rel(uint8_t cw[8], const uint8_t other[8]);
unsigned gen_len(unsigned max);
unsigned gen_long(void);               /* 500 .. 100000 */
void fill_kind(unsigned kind, uint32_t seed, uint8_t *p, size_t n, const uint8_t *cw);
void gen_payload(uint8_t *p, size_t n, const uint8_t *cw, int dec);
unsigned bsize(void);
#define NFILL 13

/* maxlen: <0 = generated so that it covers the lengths, else lengths generated up to lencap */
void gen_batch(batch_t *b, const uint8_t *cw, int dec, int cover, unsigned lencap, unsigned nmax);
void batch_place(batch_t *b, unsigned first_slot);

/* wrapped library calls: guard pages, read-only inputs, stack poison */
extern uint8_t g_stack_poison;
extern int g_errno;                    /* a key set or cipher call has changed errno */
extern uint64_t g_work, g_work_limit;  /* steps of the last call; a call failing the property when it takes more */
extern char g_work_what[160];          /* what the limit stands for */
extern int g_count_work, g_counting;   /* this build counts */
#define WORK_BEGIN() (g_work = 0, g_counting = g_count_work)
#define WORK_END() (g_counting = 0)
extern int g_arr_mode;                 /* placement of the batch array: PL_END or PL_START */
skey *sk_new(void);
void sk_set(const uint8_t *cw, skey *k);
void sk_free(skey *k);
void sk_crypt(int dec, const skey *k, uint8_t *p, unsigned len);
bkey *bk_new(void);
void bk_set(const uint8_t *cw, bkey *k);
void bk_free(bkey *k);
void bk_crypt(int dec, const bkey *k, const pk_t *v, unsigned n, unsigned maxlen, unsigned decoys);
skey *sk_make(const uint8_t *cw);
bkey *bk_make(const uint8_t *cw);
void ref_crypt(int dec, const ref_key_t *k, uint8_t *p, size_t len);
void expect_eq(const uint8_t *got, const uint8_t *want, size_t n, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
void placed_check_all(const batch_t *b, unsigned first_slot, const char *what);
void desc_cw(const uint8_t *cw);
void desc_batch(const batch_t *b, int dec);
#endif
