/* The interpreter: user programs as data, executed through the real macros of lace.h / lace14.h.
 * Compiled with -fsanitize=thread against the headers of /repo (LACE_H names the header). */
#include LACE_H
#include <string.h>
#include <stdlib.h>
#include "vrt.h"
#ifdef __cplusplus
extern "C" {
#endif

static inline uint64_t H(int id, int j) { uint64_t x = (uint64_t)(unsigned)id * 0x9E3779B97F4A7C15ULL + (uint64_t)j * 0xD1B54A32D192ED03ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; return x; }
#define NOSAN __attribute__((no_sanitize("thread"), noinline))
#define SAN __attribute__((noinline))
struct vpair { int a; float b; };
static inline struct vpair mkpair(uint64_t h) { struct vpair p; p.a = (int)h; p.b = (float)(short)(h >> 40); return p; }
static inline int eqpair(struct vpair x, struct vpair y) { return x.a == y.a && x.b == y.b; }
typedef struct vpair vpair_t;

struct kind { int arity, isvoid;
  Task *(*sp)(WorkerP *, Task *, int); int (*sy)(WorkerP *, Task *, int); int (*ca)(WorkerP *, Task *, int); int (*cb)(WorkerP *, Task *, int);
  int (*nf)(int); int (*tg)(int); int (*ru)(int); int (*rx)(int); int (*rk)(Task *, int); };
static void body(WorkerP *__lace_worker, Task *__lace_dq_head, int id, int ok, int kind);
#include "kinds.inc"
int kind_arity(int k) { return KT[k].arity; }
int kind_void(int k) { return KT[k].isvoid; }

/* outstanding tasks of one user-level context; the C objects live on the (uninstrumented) side */
struct ctx { int n, cap; int *kid; };
NOSAN static void push(struct ctx *c, int id) { if (c->n == c->cap) { c->cap = c->cap ? 2 * c->cap : 16; c->kid = (int *)vrt_xrealloc(c->kid, c->cap * sizeof(int)); } c->kid[c->n++] = id; }
SAN static Task *h_drop(WorkerP *__lace_worker, Task *__lace_dq_head) { DROP(); return __lace_dq_head; }
SAN static void h_yield(WorkerP *__lace_worker, Task *__lace_dq_head) { YIELD_NEWFRAME(); }
SAN static void h_share(WorkerP *__lace_worker, Task *__lace_dq_head) { LACE_MAKE_ALL_SHARED(); }
SAN static int h_trng(WorkerP *__lace_worker) { return (int)(LACE_TRNG & 0xffff); }
#define KOF(id) (&KT[inst_kind(id)])

NOSAN static Task *do_sync(WorkerP *__lace_worker, Task *__lace_dq_head, struct ctx *c, int solo)
{
  int id = c->kid[--c->n];
  vev(E_Sync, id, solo, 0, 0);
  if (solo) vrt_solo(solo, 1);
  int r = KOF(id)->sy(__lace_worker, __lace_dq_head, id);
  if (solo) vrt_solo_done();
  inst_free0(id);
  vev(E_SyncRet, id, r, 0, 0);
  return __lace_dq_head - 1;
}
NOSAN static Task *do_drop(WorkerP *__lace_worker, Task *__lace_dq_head, struct ctx *c, int solo)
{
  int id = c->kid[--c->n];
  vev(E_Drop, id, solo, 0, 0);
  if (solo) vrt_solo(solo, 1);
  __lace_dq_head = h_drop(__lace_worker, __lace_dq_head);
  if (solo) vrt_solo_done();
  inst_free0(id);
  vev(E_DropRet, id, 0, 0, 0);
  return __lace_dq_head;
}
NOSAN static Task *do_spawn(WorkerP *__lace_worker, Task *__lace_dq_head, struct ctx *c, int def, int solo)
{
  int id = inst_new(def, 0);
  if (id < 0) return __lace_dq_head;
  vev(E_Spawn, id, solo, 0, 0);
  if (solo) vrt_solo(solo, 0);
  __lace_dq_head = KOF(id)->sp(__lace_worker, __lace_dq_head, id);
  if (solo) vrt_solo_done();
  push(c, id);
  return __lace_dq_head;
}
static void insp(WorkerP *__lace_worker, Task *__lace_dq_head, struct ctx *c, int k, int settled)
{
  (void)__lace_worker;
  if (k >= c->n) return;
  int id = c->kid[c->n - 1 - k];
  Task *t = __lace_dq_head - 1 - k;
  int s = TASK_IS_STOLEN(t) ? 1 : 0;
  vev(E_Insp, id, 0, s, settled);
  int d = TASK_IS_COMPLETED(t) ? 1 : 0;
  int r = 1;
  if (d) r = KOF(id)->rk(t, id);
  vev(E_Insp, id, 1, d, settled + 2 * r);
}

/* Many outstanding tasks without an event for each: task i of a bulk adds 1 to its cell, 16 when it is not executed by
 * the owner.  Closed by syncs and drops; the verdict of the whole is part of the event.  Compiled with instrumentation. */
struct bulkrec { int n, owner, salt; unsigned char *cnt; };
TASK_2(int, bulk, struct bulkrec *, p, int, i)
{
  p->cnt[i] += LACE_WORKER_ID == p->owner ? 1 : 16;
  return i * 7 + p->salt;
}
SAN static Task *bulk_open(WorkerP *__lace_worker, Task *__lace_dq_head, struct bulkrec *p)
{
  for (int i = 0; i < p->n; i++) SPAWN(bulk, p, i);
  return __lace_dq_head;
}
SAN static Task *bulk_close(WorkerP *__lace_worker, Task *__lace_dq_head, struct bulkrec *p, int mode, int *ok, int *stolen)
{
  int good = 1, st = 0;
  unsigned char *at = (unsigned char *)vrt_xrealloc(0, p->n);
  for (int i = p->n - 1; i >= 0; i--) {
    int dr = mode == 1 || (mode == 2 && (H(p->salt, i) & 3) == 0) || (mode == 3 && (i & 1));
    if (dr) DROP();
    else { int r = SYNC(bulk); if (r != i * 7 + p->salt) good = 0; }
    at[i] = p->cnt[i];
    if (at[i] != 16 && at[i] != (dr ? 0 : 1)) good = 0;
    if (at[i] == 16) st++;
  }
  for (int i = 0; i < p->n; i++) if (p->cnt[i] != at[i]) good = 0;
  *ok = good; *stolen = st;      /* not freed: its stores may still be in the store buffer */
  return __lace_dq_head;
}
SAN static Task *bulk_churn(WorkerP *__lace_worker, Task *__lace_dq_head, struct bulkrec *p, int mode, int *ok, int *stolen)
{
  int good = 1, st = 0;
  for (int i = 0; i < p->n; i++) {
    int dr = mode == 1 || (mode == 2 && (H(p->salt, i) & 3) == 0) || (mode == 3 && (i & 1));
    SPAWN(bulk, p, i);
    if (dr) DROP();
    else { int r = SYNC(bulk); if (r != i * 7 + p->salt) good = 0; }
    if (p->cnt[i] != 16 && p->cnt[i] != (dr ? 0 : 1)) good = 0;
    if (p->cnt[i] == 16) st++;
  }
  *ok = good; *stolen = st;
  return __lace_dq_head;
}
NOSAN static struct bulkrec *bulk_new(int n, int owner)
{
  static int salt;
  struct bulkrec *p = (struct bulkrec *)vrt_xrealloc(0, sizeof *p);
  p->n = n; p->owner = owner; p->salt = ++salt; p->cnt = (unsigned char *)vrt_xrealloc(0, n);
  memset(p->cnt, 0, n);
  return p;
}

static Task *run_ops(WorkerP *__lace_worker, Task *__lace_dq_head, struct ctx *c, int def);
NOSAN static void vars_helper(struct ctx *c, int def)
{
  int base = c->n;
  LACE_VARS
  __lace_dq_head = run_ops(__lace_worker, __lace_dq_head, c, def);
  while (c->n > base) __lace_dq_head = do_sync(__lace_worker, __lace_dq_head, c, 0);
}

NOSAN static Task *run_ops(WorkerP *__lace_worker, Task *__lace_dq_head, struct ctx *c, int def)
{
  const Def *d = &P->def[def];
  int settled = 0, base = c->n, base0 = base;
  struct bulkrec *bk = 0;
  for (int i = 0; i < d->nops; i++) {
    const Op *o = &d->ops[i];
    int id;
    int st = settled; settled = 0;
    switch (o->op) {
    case OP_SPAWN: __lace_dq_head = do_spawn(__lace_worker, __lace_dq_head, c, o->a, o->b); break;
    case OP_BURST: for (int j = 0; j < o->b; j++) __lace_dq_head = do_spawn(__lace_worker, __lace_dq_head, c, o->a, 0); break;
    case OP_SYNC: if (c->n > base) __lace_dq_head = do_sync(__lace_worker, __lace_dq_head, c, o->b); break;
    case OP_DROP: if (c->n > base) __lace_dq_head = do_drop(__lace_worker, __lace_dq_head, c, o->b); break;
    case OP_UNBURST: for (int j = 0; j < o->b && c->n > base; j++) __lace_dq_head = do_sync(__lace_worker, __lace_dq_head, c, 0); break;
    case OP_UNDROP: for (int j = 0; j < o->b && c->n > base; j++) __lace_dq_head = do_drop(__lace_worker, __lace_dq_head, c, 0); break;
    case OP_CALL: case OP_CALLCB:
      id = inst_new(o->a, 1); if (id < 0) break;
      vev(E_Call, id, 0, 0, 0);
      { int r = o->op == OP_CALL ? KOF(id)->ca(__lace_worker, __lace_dq_head, id) : KOF(id)->cb(__lace_worker, __lace_dq_head, id);
        inst_free0(id); vev(E_CallRet, id, r, 0, 0); }
      break;
    case OP_NF: id = inst_new(o->a, 2); if (id < 0) break; vev(E_Nf, id, 0, 0, 0); { int r = KOF(id)->nf(id); inst_free0(id); vev(E_NfRet, id, r, 0, 0); } break;
    case OP_TG: id = inst_new(o->a, 3); if (id < 0) break; vev(E_Tg, id, 0, 0, 0); { int r = KOF(id)->tg(id); inst_free0(id); vev(E_TgRet, id, r, 0, 0); } break;
    case OP_RUN: id = inst_new(o->a, 4); if (id < 0) break; vev(E_Run, id, 0, 0, 0); { int r = KOF(id)->ru(id); inst_free0(id); vev(E_RunRet, id, r, 0, 0); } break;
    case OP_RUNEX: id = inst_new(o->a, 4); if (id < 0) break; vev(E_Run, id, 1, 0, 0); { int r = KOF(id)->rx(id); inst_free0(id); vev(E_RunRet, id, r, 0, 0); } break;
    case OP_YIELD: vev(E_Yield, 0, 0, 0, 0); h_yield(__lace_worker, __lace_dq_head); vev(E_YieldRet, 0, 0, 0, 0); break;
    case OP_STEAL: vev(E_Steal, o->b, 0, 0, 0); if (o->b) vrt_solo(o->b, 2); if (o->a) lace_steal_random(); else STEAL_RANDOM(); if (o->b) vrt_solo_done(); vev(E_StealRet, 0, 0, 0, 0); break;
    case OP_STEALWAIT: if (!o->a) { vev(E_Steal, 0, 0, 0, 0); while (!vrt_flag(o->b)) STEAL_RANDOM(); vev(E_StealRet, 0, 0, 0, 0); break; }   // without limit: others must be able to set the flag
      for (int j = 0; j < o->a && !vrt_flag(o->b); j++) { vev(E_Steal, 0, 0, 0, 0); STEAL_RANDOM(); vev(E_StealRet, 0, 0, 0, 0); vrt_letrun(40); } break;
    case OP_BAR: vev(E_Bar, 0, 0, 0, 0); lace_barrier(); vev(E_BarRet, 0, 0, 0, 0); break;
    case OP_SHAREALL: h_share(__lace_worker, __lace_dq_head); break;
    case OP_LETRUN: if (o->a >= 3000) vev(E_Wait, o->a >= 50000, 0, 0, 0); vrt_letrun(o->a); settled = o->a >= 3000; break;
    case OP_INSP: insp(__lace_worker, __lace_dq_head, c, o->a, st); settled = st; break;
    case OP_WORK: for (int j = 0; j < o->a; j++) vrt_point(); break;
    case OP_VARS: vars_helper(c, o->a); break;
    case OP_SHARECHK: vev(E_Share, o->a, 0, 0, 0); break;
    case OP_SETF: vrt_set_flag(o->a); break;
    case OP_WAITF: vrt_block_on(o->a); break;
    case OP_BULK: if (bk) break;
      bk = bulk_new(o->a, LACE_WORKER_ID); base = c->n;
      vev(E_Bulk, o->a, 1, 0, 0); __lace_dq_head = bulk_open(__lace_worker, __lace_dq_head, bk); vev(E_Bulk, o->a, 2, 0, 0); break;
    case OP_UNBULK: if (!bk) break;
      while (c->n > base) __lace_dq_head = do_sync(__lace_worker, __lace_dq_head, c, 0);
      vev(E_Bulk, bk->n, 3, 0, 0);
      { int ok, st; __lace_dq_head = bulk_close(__lace_worker, __lace_dq_head, bk, o->a, &ok, &st); vev(E_Bulk, bk->n, 4, ok, st); }
      bk = 0; base = base0; break;
    case OP_CHURN:
      { int ok, st; struct bulkrec *q = bulk_new(o->a, LACE_WORKER_ID); vev(E_Bulk, q->n, 5, 0, 0); __lace_dq_head = bulk_churn(__lace_worker, __lace_dq_head, q, o->b, &ok, &st); vev(E_Bulk, q->n, 6, ok, st); }
      break;
    case OP_ONLYW: if (LACE_WORKER_ID != o->a) return __lace_dq_head; break;   // only as the first operation
    case OP_RNG: vev(E_Trng, h_trng(__lace_worker), 0, 0, 0); break;
    default: abort();
    }
  }
  return __lace_dq_head;
}

NOSAN static void body(WorkerP *__lace_worker, Task *__lace_dq_head, int id, int ok, int kind)
{
  vrt_solo_reached();
  if (!inst_ok(id)) { vev(E_Start, -1, LACE_WORKER_ID, 0, 0); return; }
  int fl = (ok && inst_kind(id) == kind) ? 1 : 0;
  if (lace_is_worker() == 1) fl |= 2;
  if (lace_get_worker() == __lace_worker) fl |= 4;
  vev(E_Start, id, LACE_WORKER_ID, fl, lace_workers());
  struct ctx c; c.n = c.cap = 0; c.kid = 0;
  __lace_dq_head = run_ops(__lace_worker, __lace_dq_head, &c, inst_def(id));
  while (c.n > 0) __lace_dq_head = do_sync(__lace_worker, __lace_dq_head, &c, 0);
  vrt_xfree(c.kid);
  vev(E_End, id, 0, 0, 0);
}

#if LACE_COUNT_EVENTS
static void report(int how)
{
  static char buf[20000];
  int tasks = -1, steals = -1, fl, nw = lace_workers();
  vev(E_Report, how, 1, 0, 0);
  vrt_capture_stdout(1, 0, 0);
  if (how) lace_stop(); else lace_count_report_file(stdout);
  vrt_capture_stdout(0, buf, sizeof buf);
  fl = vrt_parse_report(buf, how, nw, &tasks, &steals);
  vev(E_Report, tasks, 0, steals, fl);
}
#endif

NOSAN static void ext_ops(int s)
{
  const Def *d = &P->script[s];
  for (int i = 0; i < d->nops; i++) {
    const Op *o = &d->ops[i];
    int id;
    switch (o->op) {
    case S_START:
      vev(E_StartInv, o->a, o->b, 0, 0);
      { int t0 = vrt_threads_created(); lace_start(o->a, o->b); vev(E_StartRet, lace_workers(), vrt_threads_created() - t0, vrt_stack_kb(), (int)(lace_get_stacksize() / 1024)); }
      break;
    case S_STOP:
      vev(E_StopInv, 0, 0, 0, 0);
      { int n = lace_workers();
#if LACE_COUNT_EVENTS
      report(1);
#else
      lace_stop();
#endif
      vev(E_StopMid, 0, 0, 0, 0);
      vrt_letrun(3000 + 150 * n); }
      vev(E_StopRet, vrt_livealloc(), vrt_zombies(), 0, 0);
      break;
    case S_RUN: id = inst_new(o->a, 4); if (id < 0) break; vev(E_Run, id, 0, 0, 0); { int r = KOF(id)->ru(id); inst_free0(id); vev(E_RunRet, id, r, 0, 0); } break;
    case S_RUNEX: id = inst_new(o->a, 4); if (id < 0) break; vev(E_Run, id, 1, 0, 0); { int r = KOF(id)->rx(id); inst_free0(id); vev(E_RunRet, id, r, 0, 0); } break;
    case S_NF: id = inst_new(o->a, 2); if (id < 0) break; vev(E_Nf, id, 0, 0, 0); { int r = KOF(id)->nf(id); inst_free0(id); vev(E_NfRet, id, r, 0, 0); } break;
    case S_TG: id = inst_new(o->a, 3); if (id < 0) break; vev(E_Tg, id, 0, 0, 0); { int r = KOF(id)->tg(id); inst_free0(id); vev(E_TgRet, id, r, 0, 0); } break;
    case S_SUS: for (int j = 0; j <= o->a; j++) { vev(E_Sus, 0, 0, 0, 0); lace_suspend(); vev(E_SusRet, 0, 0, 0, 0); } break;
    case S_RES: for (int j = 0; j <= o->a; j++) { vev(E_Res, 0, 0, 0, 0); lace_resume(); vev(E_ResRet, 0, 0, 0, 0); } break;
    case S_QUIET: { vev(E_Wait, 0, 0, 0, 0); int k = vrt_quiesce(o->a); vev(E_Quiet, k, 0, 0, 0); } break;
    case S_FORK: vrt_spawn_ext(o->a, ext_ops); break;
    case S_JOIN: vrt_join_ext(o->a); break;
    case S_EXTQ: vev(E_ExtQ, lace_is_worker(), lace_get_worker() == 0, lace_workers(), 0); break;
    case S_PROBE: vev(E_Probe, (int)lace_get_pu_count(), 0, 0, 0); break;
    case S_SETSTACK: lace_set_stacksize((size_t)o->a * 1024); vev(E_SetStack, o->a, (int)(lace_get_stacksize() / 1024), 0, 0); break;
    case S_VERB: lace_set_verbosity(o->a); break;
    case S_LETRUN: vrt_letrun(o->a); break;
    case S_FAULT: vrt_set_fault(o->a, o->b); break;
    case S_SETF: vrt_set_flag(o->a); break;
    case S_WAITF: vrt_block_on(o->a); break;
#if LACE_COUNT_EVENTS
    case S_REPORT: report(0); break;
    case S_RESET: lace_count_reset(); vev(E_Reset, 0, 0, 0, 0); break;
#else
    case S_REPORT: case S_RESET: break;
#endif
    default: abort();
    }
  }
}
void ext_main(int s) { ext_ops(s); if (s == 0) { vev(E_Fin, 0, 0, 0, 0); vrt_done(); } }
#ifdef __cplusplus
}
#endif
