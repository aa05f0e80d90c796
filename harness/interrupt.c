/* C21: calls interrupted at generated points by a signal handler that uses the library
   itself; resumed or abandoned by a long jump. */
#define _GNU_SOURCE
#include "common.h"
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

#define PGSZ 4096
#define LONG 4000
enum { SENC, SDEC, BENC, BDEC, SSET, BSET };
static const char *const opn[] = { "encrypt", "decrypt", "batch encrypt", "batch decrypt", "set", "batch set" };
typedef struct {
  int kind;
  skey *sk;
  bkey *bk;
  uint8_t cw[8];                       /* of a key to set */
  const uint8_t *cwp;
  unsigned n, maxlen, len[MAXN];
  uint8_t *p[MAXN];
  uint8_t data[MAXN][200], want[MAXN][184];
  uint8_t ldata[LONG + 16], lwant[LONG];  /* of a single call */
  struct dvbcsa_bs_batch_s arr[MAXN + 1];
} iop_t;
#define NIN 3
static iop_t outer, inner[NIN], after;

static uint8_t *op_want(const iop_t *o, unsigned i)
{
  return (uint8_t *)(o->kind < BENC ? o->lwant : o->want[i]);
}

static void op_gen(iop_t *o, const uint8_t *cw, unsigned nmax, unsigned lmax, int lng)
{
  unsigned i, B = bsize(), shift;
  ref_key_t rk;
  ref_key(&rk, cw);
  if (o->kind >= SSET)
    return;
  o->n = 1;
  if (o->kind >= BENC)
    o->n = ch_bool(1, 8) ? (g_qemu || nmax < B ? nmax : B) : ch_u(nmax + 1);
  if (o->n > B)
    o->n = B;
  o->maxlen = 0;
  shift = ch_u(16) * ch_u(2);
  for (i = 0; i < o->n; i++)
    {
      o->len[i] = i >= 4 ? o->len[i & 3] : lng && o->kind < BENC ? 185 + ch_u(LONG - 184) : gen_len(lmax);
      if (o->len[i] > o->maxlen)
        o->maxlen = o->len[i];
      o->p[i] = o->kind < BENC ? o->ldata + shift : o->data[i] + shift;
      prng_fill(((uint64_t)ch_u(256) << 8) + i, o->p[i], o->len[i]);
      memcpy(op_want(o, i), o->p[i], o->len[i]);
      ref_crypt(o->kind & 1, &rk, op_want(o, i), o->len[i]);
    }
  o->maxlen = (o->maxlen + 7) & ~7u;
}

static void op_ready(iop_t *o)
{
  unsigned i;
  memset(o->arr, 0, sizeof o->arr);
  for (i = 0; i < o->n; i++)
    {
      o->arr[i].data = o->p[i];
      o->arr[i].len = o->len[i];
    }
  o->cwp = o->cw;
}

static void op_run(const iop_t *o)
{
  switch (o->kind)
    {
    case SENC: dvbcsa_encrypt(o->sk, o->p[0], o->len[0]); break;
    case SDEC: dvbcsa_decrypt(o->sk, o->p[0], o->len[0]); break;
    case BENC: dvbcsa_bs_encrypt(o->bk, o->arr, o->maxlen); break;
    case BDEC: dvbcsa_bs_decrypt(o->bk, o->arr, o->maxlen); break;
    case SSET: dvbcsa_key_set(o->cwp, o->sk); break;
    default: dvbcsa_bs_key_set(o->cwp, o->bk);
    }
}

static void op_verify(const iop_t *o, const char *who)
{
  unsigned i;
  if (o->kind < SSET)
    for (i = 0; i < o->n; i++)
      expect_eq(o->p[i], op_want(o, i), o->len[i], "%s %s (%u packets), packet %u of %u bytes", who, opn[o->kind], o->n, i, o->len[i]);
}

/* ------------------------------------------------------------ interruptions */
static volatile sig_atomic_t in_call, fired, planned, leave_after;
static volatile long steps, gap[NIN];
static uint8_t *volatile fault_page;
static volatile size_t fault_len;
static volatile int fault_prot[2], fault_i, arm_at; /* arm_at: the access stepping starts at, or -1 */
static sigjmp_buf jb;

static void nested(void)
{
  if (fired < planned)
    {
      int i = fired;
      op_run(&inner[i]);
      fired = i + 1;
      if (fired == leave_after)
        siglongjmp(jb, 1);
    }
}

#if defined(__x86_64__)
#define HAVE_STEP 1
static void on_trap(int s, siginfo_t *si, void *u)
{
  (void)s; (void)si;
  if (!in_call)
    {
      ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
      return;
    }
  if (++steps >= gap[fired])
    {
      steps = 0;
      if (fired + 1 >= planned)
        ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
      nested();
    }
}
#else
#define HAVE_STEP 0
#endif

static long rearm;
static void set_alarm(long usec)
{
  struct itimerval it = { { 0, 0 }, { 0, usec } };
  setitimer(ITIMER_REAL, &it, NULL);
}

static void on_alarm(int s, siginfo_t *si, void *u)
{
  (void)s; (void)si; (void)u;
  if (!in_call)
    return;
  nested();
  if (fired < planned)
    set_alarm(rearm);
}

static void on_fault(int s, siginfo_t *si, void *u)
{
  (void)u;
  if (in_call && fault_page && (uint8_t *)si->si_addr >= fault_page && (uint8_t *)si->si_addr < fault_page + fault_len && fault_i < 2)
    {
      mprotect(fault_page, fault_len, fault_prot[fault_i]);
#if HAVE_STEP
      if (arm_at >= 0)
        {                              /* count instructions from this access on */
          if (fault_i++ == arm_at)
            {
              steps = 0;
              ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] |= 0x100L;
            }
          return;
        }
#endif
      fault_i++;
      nested();
      return;
    }
  signal(s, SIG_DFL);                  /* a genuine fault */
}

static void call_interrupted(int how, long usec)
{
  if (how == 1 && HAVE_STEP)
    {
#if HAVE_STEP
      in_call = 1;
      __asm__ volatile("lea -128(%%rsp), %%rsp\n\tpushfq\n\torl $0x100, (%%rsp)\n\tpopfq\n\tlea 128(%%rsp), %%rsp" ::: "memory", "cc");
      op_run(&outer);
      __asm__ volatile("lea -128(%%rsp), %%rsp\n\tpushfq\n\tandl $~0x100, (%%rsp)\n\tpopfq\n\tlea 128(%%rsp), %%rsp" ::: "memory", "cc");
      in_call = 0;
#endif
      return;
    }
  if (how == 2)
    {
      rearm = usec + 20;
      in_call = 1;
      set_alarm(usec);
      op_run(&outer);
      in_call = 0;
      set_alarm(0);
      return;
    }
  in_call = 1;
  op_run(&outer);
  in_call = 0;
}

static void handler(int sig, void (*f)(int, siginfo_t *, void *), struct sigaction *old)
{
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_sigaction = f;
  a.sa_flags = SA_SIGINFO;
  sigemptyset(&a.sa_mask);
  sigaddset(&a.sa_mask, SIGALRM);
  sigaction(sig, &a, old);
}

void c21(void)
{
  uint8_t cw[2][8];
  skey *sk[2], *ps;
  bkey *bk[2], *pb;
  unsigned i, how, where = 0, cut = 0, lng;
  volatile int left = 0;
  long usec = 0;
  struct sigaction o1, o2, o3;
  galloc_t *g = NULL;
  ref_key_t rk;
  gen_cw(cw[0]);
  gen_cw_rel(cw[1], cw[0]);
  for (i = 0; i < 2; i++)
    {
      sk[i] = sk_make(cw[i]);
      bk[i] = bk_make(cw[i]);
    }
  ps = sk_make(cw[1]);                 /* contexts only the handler sets */
  pb = bk_make(cw[1]);
  outer.kind = (int)CH_WT(3, 3, 4, 4, 1, 1);
  how = HAVE_STEP && !g_qemu && !g_san ? CH_WT(3, 6, 3) : CH_WT(3, 0, 2);
#if defined(__aarch64__)
  how = 2;                             /* qemu does not deliver faults of vector accesses */
#endif
  outer.sk = sk[0];
  outer.bk = bk[0];
  memcpy(outer.cw, cw[0], 8);
  outer.n = 0;
  lng = outer.kind < BENC && ch_bool(1, 6);
  op_gen(&outer, cw[0], 6, how == 1 && outer.kind >= BENC ? 24 : 184, lng);
  if (outer.kind >= SSET)
    {                                  /* the outer call changes key 0 to another control word */
      gen_cw_rel(outer.cw, cw[0]);
    }
  arm_at = how == 0 && HAVE_STEP && !g_qemu && !g_san && ch_bool(1, 2) ? (outer.kind < SSET ? (int)ch_u(2) : 0) : -1;
  planned = (int)(1 + ch_u(how == 0 && arm_at < 0 ? 2 : NIN));
  leave_after = ch_bool(1, 3) ? (int)(1 + ch_u((unsigned)planned)) : 0;
  describe("%s key0=", opn[outer.kind]);
  hexcat(cw[0], 8);
  describe(" n=%u len0=%u maxlen=%u, interrupted ", outer.n, outer.n ? outer.len[0] : 0, outer.maxlen);
  for (i = 0; i < (unsigned)planned; i++)
    {
      iop_t *o = &inner[i];
      unsigned shared = ch_bool(1, 2) && outer.kind < SSET;
      /* the handler mostly does what the interrupted call does */
      o->kind = ch_bool(1, 2) && outer.kind < SSET ? outer.kind : (int)CH_WT(2, 2, 2, 2, 1, 1);
      o->sk = sk[shared ? 0 : 1];
      o->bk = bk[shared ? 0 : 1];
      o->n = 0;
      if (o->kind >= SSET)
        {
          gen_cw_rel(o->cw, cw[0]);
          o->sk = ps;
          o->bk = pb;
        }
      op_gen(o, cw[shared ? 0 : 1], 6, 184, (lng && ch_bool(2, 3)) || ch_bool(1, 16));
      op_ready(o);
      gap[i] = 0;
      describe("[%s%s] ", opn[o->kind], o->kind >= SSET ? "" : shared ? " same key" : " other key");
    }
  fault_page = NULL;
  fault_i = 2;
  steps = 0;
  fired = 0;
  if (how == 1)
    {
      for (i = 0; i < (unsigned)planned; i++)
        gap[i] = 1 + (long)ch_u(ch_bool(1, 3) ? 300 : outer.kind == SSET ? 1200 : lng && ch_bool(1, 2) ? 50000 : 4500);
      describe("after %ld instructions", gap[0]);
    }
  else if (how == 2)
    {
      usec = 1 + (long)ch_u(outer.kind < BENC ? (lng ? 400 : 40) : g_qemu || g_san ? 2000 : 400);
      describe("after %ld us", usec);
    }
  else
    { /* at the first access to something */
      where = outer.kind >= SSET ? 2 : CH_WT(4, 1);
      if (where == 0 && (!outer.n || outer.len[i = ch_u(outer.n)] < 2))
        where = 1;
      if (where == 0)
        { /* part of a payload behind a page boundary */
          slot_t *s = &g_slot[SL_X];
          const uint8_t *old = outer.p[i];
          cut = ch_u(outer.len[i]);
          outer.p[i] = slot_place(SL_X, outer.len[i], PL_OFFSET, PGSZ - cut, 0x5c);
          memcpy(outer.p[i], old, outer.len[i]);
          fault_page = s->page + PGSZ;
          fault_len = PGSZ;
          fault_prot[0] = PROT_READ;
          fault_prot[1] = PROT_READ | PROT_WRITE;
          describe("at the accesses to payload byte %u+ of packet %u", cut, i);
        }
      else if (where == 1)
        {
          g = galloc_find(outer.kind < BENC ? (void *)sk[0] : (void *)bk[0]);
          fault_page = g->data;
          fault_len = g->datalen;
          fault_prot[0] = fault_prot[1] = PROT_READ | PROT_WRITE;
          describe("at the first access to the key context");
        }
      else
        {
          where = 2;
          describe("at the access to the control word");
        }
      fault_i = 0;
      if (arm_at >= 0)
        {
          if (where)
            arm_at = 0;
          for (i = 0; i < (unsigned)planned; i++)
            gap[i] = 1 + (long)ch_u((unsigned[]){ 12, 60, 400 }[CH_WT(2, 2, 1)]);
          describe(" (access %d) and %ld instructions", arm_at + 1, gap[0]);
        }
    }
  if (leave_after)
    describe(", abandoned after nested call %d", (int)leave_after);
  op_ready(&outer);
  if (where == 2)
    {
      uint8_t *p = slot_place(SL_X + 1, 8, PL_START, 0, 0x5d);
      memcpy(p, outer.cw, 8);
      outer.cwp = p;
      fault_page = g_slot[SL_X + 1].page;
      fault_len = g_slot[SL_X + 1].size;
      fault_prot[0] = fault_prot[1] = PROT_READ | PROT_WRITE;
    }
  handler(SIGSEGV, on_fault, &o1);
  handler(SIGALRM, on_alarm, &o2);
#if HAVE_STEP
  handler(SIGTRAP, on_trap, &o3);
#else
  (void)o3;
#endif
  if (fault_page)
    mprotect(fault_page, fault_len, PROT_NONE);
  stack_poison(g_stack_poison);
  if (sigsetjmp(jb, 1) == 0)
    call_interrupted((int)how, usec);
  else
    left = 1;
  in_call = 0;
  set_alarm(0);
  if (fault_page)
    mprotect(fault_page, fault_len, PROT_READ | PROT_WRITE);
  sigaction(SIGSEGV, &o1, NULL);
  sigaction(SIGALRM, &o2, NULL);
#if HAVE_STEP
  sigaction(SIGTRAP, &o3, NULL);
#endif
  op_count(1 + (uint64_t)fired);

  for (i = 0; i < (unsigned)fired; i++)
    op_verify(&inner[i], "nested");
  if (!left)
    op_verify(&outer, "interrupted");
  if (left && outer.kind >= SSET)
    { /* an abandoned set leaves the context to be set again */
      if (outer.kind == SSET)
        sk_set(outer.cw, sk[0]);
      else
        bk_set(outer.cw, bk[0]);
    }
  /* every context still means what it was set to; all calls work as ever */
  for (i = 0; i < 6; i++)
    {
      const uint8_t *w = i % 3 == 0 ? cw[0] : cw[1];
      int j, priv = 0;
      if (i % 3 == 0 && outer.kind == (i < 3 ? SSET : BSET))
        w = outer.cw;
      if (i % 3 == 2)
        for (j = 0; j < fired; j++)
          if (inner[j].kind == (i < 3 ? SSET : BSET))
            {
              w = inner[j].cw;
              priv = 1;
            }
      after.kind = (i < 3 ? SENC : BENC) + (outer.len[0] + i) % 2;
      after.sk = i % 3 == 2 ? ps : sk[i % 3];
      after.bk = i % 3 == 2 ? pb : bk[i % 3];
      after.n = 1;
      after.maxlen = 24;
      after.len[0] = 21;
      after.p[0] = after.data[0];
      prng_fill(i, after.data[0], 21);
      memcpy(op_want(&after, 0), after.data[0], 21);
      ref_key(&rk, w);
      ref_crypt(after.kind & 1, &rk, op_want(&after, 0), 21);
      op_ready(&after);
      op_run(&after);
      op_verify(&after, priv ? "with the context the handler set: later" : i % 3 ? "with a context only used: later" : "with the context of the interrupted call: later");
    }
  op_count(6);
  if (where == 0 && how == 0)
    slot_check(SL_X, "memory beside the payload");
  if (fired)
    {
      nontrivial();
      if (lng)
        label("long payload");
      label(how == 0 && arm_at >= 0 ? "interrupted at instructions after an access" : how == 0 ? "interrupted at an access" : how == 1 ? "interrupted at an instruction" : "interrupted by a timer");
      if (left)
        label("abandoned");
      if (fired > 1)
        label("interrupted repeatedly");
    }
  else
    label("not reached");
  for (i = 0; i < 2; i++)
    {
      sk_free(sk[i]);
      bk_free(bk[i]);
    }
  sk_free(ps);
  bk_free(pb);
}
