// Deterministic scheduler + ThreadSanitizer ABI.  The code under test is compiled with
// -fsanitize=thread -femulated-tls and linked with this file instead of libtsan; libc's thread,
// allocation and exit functions are redirected to vrt_* by objcopy (see shims.txt).
// All threads are coroutines of one OS thread; every instrumented access is a scheduling point.
#include "vrt.h"
#include "vrt_int.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

Strat ST;
Shm *SH;
static const int MAXT = 320;
static const size_t STK = 1 << 20, STKSLOT = STK + 4096; static u8 *stacks;

struct SB { void *p; u64 val, old; u64 step; u8 sz; };
struct Clock { u16 c[VC_N]; Clock() { memset(c, 0, sizeof c); } void join(const Clock &o) { for (int i = 0; i < VC_N; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

enum { DEAD = 0, RUNNABLE, BLOCKED };
struct Co {
  int id, state; void *sp; u8 *stk;
  bool gated; bool worker, detached, joined, finished, created_by_lace;
  void *(*fn)(void *); void *arg; void *ret;
  void (*extfn)(int); int extarg;
  void *waitobj; int wakecode;
  u64 frozen_until, parked_until; u64 prio; u64 spin; u64 steps;
  std::vector<SB> sb; bool pend; SB pw;
  void *tls[64]; std::map<unsigned, void *> keys;
  Clock vc, relfence, acqfence;
};
static Co T[MAXT]; static int nT = 0;
static Co *cur; static void *sched_sp;
static u64 steps, slice; static u64 rs;
static Co *solo; static u64 solo_left; static bool solo_exceeded;
static Co *solo_owner; static int solo_what, solo_delay;   // solo_delay: own steps of the operation before the others are halted
static u64 last_ev; static u64 fair_until; static int tcreated, last_stack_kb;
static bool running;
static u64 pctpts[8]; static int npct; static u64 lowprio;
static bool fairmode() { return steps >= ST.soft || steps < fair_until; }

u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
u32 rndn(u32 n) { return (u32)((rnd() >> 33) % n); }
static bool chance(double p) { return (rnd() >> 11) * (1.0 / 9007199254740992.0) < p; }

// ------------------------------------------------------------------ coroutine switch
extern "C" void vrt_switch(void **save, void *to);
asm(".text\n.globl vrt_switch\nvrt_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

// ------------------------------------------------------------------ memory helpers
static inline u64 ld(const void *p, int sz) {
  switch (sz) { case 1: return *(const volatile u8 *)p; case 2: return *(const volatile u16 *)p; case 4: return *(const volatile u32 *)p; default: return *(const volatile u64 *)p; }
}
static inline void st(void *p, u64 v, int sz) {
  switch (sz) { case 1: *(volatile u8 *)p = (u8)v; break; case 2: *(volatile u16 *)p = (u16)v; break; case 4: *(volatile u32 *)p = (u32)v; break; default: *(volatile u64 *)p = v; }
}
static inline bool onstack(Co *c, const void *p) { return c->stk && (u8 *)p >= c->stk && (u8 *)p < c->stk + STK; }

// ------------------------------------------------------------------ store buffers (x86-TSO)
// A running thread sees memory = committed memory overlaid with its buffered stores; the overlay is
// removed when it is switched out and re-applied when it is switched in.
static void overlay_off(Co *c) { for (size_t i = c->sb.size(); i-- > 0;) st(c->sb[i].p, c->sb[i].old, c->sb[i].sz); }
static void overlay_on(Co *c) { for (auto &e : c->sb) { e.old = ld(e.p, e.sz); st(e.p, e.val, e.sz); } }
static void flush(Co *c) { c->sb.clear(); }                 // only for the running thread (overlay is on)
static void commit_oldest(Co *c) { SB e = c->sb.front(); c->sb.erase(c->sb.begin()); st(e.p, e.val, e.sz); } // overlay off
static void sb_put(Co *c, void *p, u64 val, u64 old, int sz) {
  if (c->sb.size() >= 12) c->sb.erase(c->sb.begin());
  SB e; e.p = p; e.val = val; e.old = old; e.sz = (u8)sz; e.step = steps; c->sb.push_back(e);
}
static inline void capture() {
  if (!cur->pend) return;
  cur->pend = false;
  u64 v = ld(cur->pw.p, cur->pw.sz);
  if (ST.tso && !fairmode()) sb_put(cur, cur->pw.p, v, cur->pw.old, cur->pw.sz);
  else cur->sb.clear();      // the store is in memory; so are (as seen by this thread) the buffered ones before it
}

// ------------------------------------------------------------------ guides
// A guide is a behaviour of the contract (spec/MCLace.tla).  A thread whose next event is not the next one of
// the guide waits; the thread whose turn it is runs.  When the library goes another way, or does not get to
// the next event, the guide is abandoned and the execution goes on freely.
static const GEv *gd; static int gn, gp; static u64 glast, gpatience; static bool gon;
void vrt_guide(const GEv *g, int n) { gd = g; gn = n; gp = 0; glast = 0; gon = n > 0; gpatience = 0; }
static void resched();
static void goff(const char *why, int k, int a) { gon = false; if (const char *fn = getenv("VRT_GUIDE")) { FILE *f = fopen(fn, "a"); fprintf(f, "guide left at %d/%d (%s): next is %s %d %d; thread %d at %s %d\n", gp, gn, why, EN[gd[gp].k], gd[gp].th, gd[gp].a, cur ? cur->id : -1, EN[k] ? EN[k] : "-", a); fclose(f); } }
static void gate(int k, int a) {
  if (k >= E_Deadlock && k <= E_BadCall) return;
  auto fits = [&](int j) { return gd[j].k == k && (a < 0 || gd[j].a < 0 || gd[j].a == a); };
  while (gon) {
    int j = gp; while (j < gn && gd[j].th != cur->id) j++;
    if (j == gn || !fits(j) || fairmode()) { goff(fairmode() ? "fair" : "other event", k, a); break; }
    if (a < 0) { if (j == gp) break; }
    else if (j == gp) { gp++; glast = steps; slice = 0; if (gp == gn) gon = false; break; }
    cur->gated = true; slice = 1; steps++;
    resched();
  }
  cur->gated = false;
  SH->gpos = gp; SH->gtotal = gn;
}

// wait for the turn of an event that has yet to get its id
void vrt_pregate(int k) { if (cur && gon && solo == nullptr) gate(k, -1); }

// ------------------------------------------------------------------ events
static void finish(int k, int a);
extern "C" void vev(int k, int a, int b, int c, int d) {
  if (cur) { capture(); cur->spin = 0; if (gon && solo == nullptr) gate(k, a); }
  last_ev = steps;
  if (SH->nev >= SHM_EV) { SH->over = 1; vrt_done(); }
  Ev *e = &SH->ev[SH->nev];
  memset(e, 0, sizeof *e);
  e->k = (u8)k; e->th = cur ? (u16)cur->id : 999; e->a = a; e->b = b; e->c = c; e->d = d;
  if (ST.hb && cur && cur->id < VC_N) { cur->vc.c[cur->id]++; memcpy(e->vc, cur->vc.c, sizeof e->vc); e->nvc = VC_N; }
  SH->nev++;
}
extern "C" void vrt_done(void) { SH->steps = steps; SH->nthreads = nT; fflush(stdout); _exit(0); }
static void finish(int k, int a) { vev(k, a, 0, 0, 0); vrt_done(); }

// ------------------------------------------------------------------ scheduler
static Co *rr_next() {
  int start = cur ? cur->id : 0;
  // next runnable in id order among non-parked
  for (int i = 1; i <= nT; i++) { Co *c = &T[(start + i) % nT]; if (c->state == RUNNABLE && c->parked_until <= steps) return c; }
  return nullptr;
}
static Co *pick() {
  // park handling: when only parked threads remain, release the one with the smallest deadline
  Co *cand[MAXT]; int n = 0, nrun = 0; Co *firstparked = nullptr;
  for (int i = 0; i < nT; i++) {
    Co *c = &T[i];
    if (c->state != RUNNABLE) continue;
    nrun++;
    if (c->parked_until > steps) { if (!firstparked || c->parked_until < firstparked->parked_until) firstparked = c; continue; }
    if (!fairmode() && c->frozen_until > steps) continue;
    cand[n++] = c;
  }
  if (nrun == 0) return nullptr;
  if (n == 0) {
    for (int i = 0; i < nT; i++) { Co *c = &T[i]; if (c->state == RUNNABLE && c->parked_until <= steps) { c->frozen_until = 0; cand[n++] = c; } }
    if (n == 0) { firstparked->parked_until = 0; return firstparked; }
  }
  if (fairmode()) { slice = 1 + rndn(90); Co *c = rr_next(); return c ? c : cand[0]; }
  if (gon) {
    if (steps - glast > (gd[gp].k == E_StopRet ? 20000u : 3000u)) goff("no progress", 0, 0);
    Co *gc[MAXT]; int m = 0; bool prim = false;
    // an outside thread whose task is not the next one to be taken up stays back
    int nx = -1; for (int j = gp; j < gn && nx < 0; j++) if (gd[j].k == E_Start && gd[j].by >= 0 && gd[j].by < 8) nx = gd[j].by;
    bool back[8] = {}; for (int t = 0; t < 8; t++) if (t != nx) {
      int j = gp - 1; while (j >= 0 && gd[j].th != t) j--;
      if (j >= 0 && (gd[j].k == E_Run || gd[j].k == E_Nf || gd[j].k == E_Tg)) { back[t] = true; for (int i = j; i < gp; i++) if (gd[i].k == E_Start && gd[i].a == gd[j].a) back[t] = false; }
    }
    for (int i = 0; i < n; i++) if (gd[gp].th == cand[i]->id || !(cand[i]->gated || (cand[i]->id < 8 && back[cand[i]->id]))) { gc[m++] = cand[i]; if (gd[gp].th == cand[i]->id) prim = true; }
    if (m == 0) goff("nothing else to run", 0, 0);
    if (gon) {
      slice = 1 + rndn(40); u64 w = steps - glast; if (!gpatience) gpatience = 30u << rndn(5);
      if (prim && (w < gpatience || chance(0.4))) return &T[gd[gp].th];
      // the thread that has to make the event possible, the ones whose turn is soon, any
      if (gd[gp].by >= 0 && chance(0.5)) for (int i = 0; i < m; i++) if (gc[i]->id == gd[gp].by) return gc[i];
      if (chance(0.5)) for (int j = gp; j < gn; j++) for (int i = 0; i < m; i++) if (gc[i]->id == gd[j].th) return gc[i];
      return gc[rndn(m)];
    }
  }
  switch (ST.kind) {
  case K_RW: case K_FREEZE: {
    // geometric slice
    slice = 1; while (slice < 4000 && !chance(ST.p)) slice++;
    return cand[rndn(n)];
  }
  case K_PCT: {
    if (cur && cur->spin >= 60) { cur->prio = lowprio--; cur->spin = 0; }
    for (int i = 0; i < npct; i++) if (pctpts[i] && steps >= pctpts[i]) { pctpts[i] = 0; if (cur) cur->prio = lowprio--; }
    Co *b = cand[0];
    for (int i = 1; i < n; i++) if (cand[i]->prio > b->prio) b = cand[i];
    slice = 64;
    for (int i = 0; i < npct; i++) if (pctpts[i] > steps && pctpts[i] - steps < slice) slice = pctpts[i] - steps;
    return b;
  }
  default: { slice = 1 + rndn(90); Co *c = rr_next(); return c ? c : cand[0]; }
  }
}
static void switch_to(Co *n) {
  Co *o = cur;
  if (n == o) return;
  if (!o->sb.empty()) overlay_off(o);
  if (ST.tso) {
    bool all = fairmode();
    for (int i = 0; i < nT; i++) {
      Co *c = &T[i];
      while (!c->sb.empty() && (all || steps - c->sb.front().step > ST.sbage || chance(ST.pc))) commit_oldest(c);
    }
  }
  if (!n->sb.empty()) overlay_on(n);
  SH->switches++;
  cur = n;
  vrt_switch(&o->sp, n->sp);
}
static void deadlock() {
  // describe who is blocked: number of blocked workers / outside threads
  int bw = 0, be = 0; for (int i = 0; i < nT; i++) if (T[i].state == BLOCKED) (T[i].worker ? bw : be)++;
  vev(E_Deadlock, bw, be, 0, 0); vrt_done();
}
static void resched() {
  Co *n = pick();
  if (!n) deadlock();
  if (steps > ST.hard + std::max(last_ev, ST.soft)) { vev(E_Livelock, 0, 0, 0, 0); vrt_done(); }
  if (n != cur) switch_to(n);
}
enum { A_R = 0, A_W, A_AL, A_AS, A_RMW, A_F, A_CALL };
static inline void point(int cls) {
  if (!running) return;
  capture();
  steps++; cur->steps++; cur->spin++;
  if (__builtin_expect(solo != nullptr, 0)) {
    if (solo_left-- > 0) return;
    solo = nullptr; solo_exceeded = true; slice = 1;
  }
  if (__builtin_expect(solo_delay != 0, 0) && cur == solo_owner) {
    if (fairmode()) solo_delay = 0; else if (--solo_delay == 0) { solo = cur; return; }
  }
  if (cls >= A_AS && ST.wfreeze > 0 && !fairmode() && chance(ST.wfreeze)) { cur->frozen_until = steps + 20 + rndn(ST.flen); resched(); return; }
  if (slice > 1) { slice--; return; }
  if (ST.kind == K_FREEZE && !fairmode() && chance(0.02)) cur->frozen_until = steps + 20 + rndn(ST.flen);
  resched();
}
static void block(void *obj) {
  capture(); flush(cur);
  if (solo == cur) { solo = nullptr; solo_exceeded = true; }
  cur->state = BLOCKED; cur->waitobj = obj; cur->wakecode = 0;
  resched();
}
static void wake(Co *c, int code) { c->state = RUNNABLE; c->waitobj = nullptr; c->wakecode = code; c->spin = 0; }
static int nwait(void *obj) { int n = 0; for (int i = 0; i < nT; i++) if (T[i].state == BLOCKED && T[i].waitobj == obj) n++; return n; }
static Co *anywait(void *obj) { int k = nwait(obj); if (!k) return nullptr; k = rndn(k); for (int i = 0; i < nT; i++) if (T[i].state == BLOCKED && T[i].waitobj == obj && k-- == 0) return &T[i]; return nullptr; }

static void co_exit();
extern "C" void vrt_trampoline() {
  Co *c = cur;
  if (c->extfn) c->extfn(c->extarg); else c->ret = c->fn(c->arg);
  co_exit();
}
static void co_exit() {
  capture(); flush(cur);
  cur->state = DEAD; cur->finished = true;
  while (Co *w = anywait(&cur->finished)) wake(w, 0);
  Co *n = pick();
  if (!n) deadlock();
  switch_to(n);
  abort();
}
static Co *co_new(int id) {
  Co *c = &T[id];
  if (id >= nT) nT = id + 1;
  if (!stacks) stacks = (u8 *)mmap(nullptr, MAXT * STKSLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!c->stk) { c->stk = stacks + id * STKSLOT; mprotect(c->stk, 4096, PROT_NONE); }
  u8 *stk = c->stk;
  c->~Co(); new (c) Co(); c->stk = stk;
  c->id = id; c->state = RUNNABLE; c->prio = 1000000 + (rnd() >> 40);
  u64 *sp = (u64 *)(stk + STK - 64);
  sp = (u64 *)((uintptr_t)sp & ~15ULL);
  *--sp = 0; *--sp = (u64)(uintptr_t)&vrt_trampoline;
  for (int i = 0; i < 6; i++) *--sp = 0;
  c->sp = sp;
  if (cur) { c->vc.join(cur->vc); }
  return c;
}

// ------------------------------------------------------------------ C11 happens-before (SC mode only)
struct SyncG { std::vector<std::pair<int, Clock>> heads; };
static std::unordered_map<uintptr_t, SyncG> sync_g;
static void hb_acquire_from(SyncG &g, int mo) {
  Clock j; for (auto &h : g.heads) j.join(h.second);
  if (mo == 1 || mo == 2 || mo == 4 || mo == 5) cur->vc.join(j); else cur->acqfence.join(j);
}
static void hb_add(SyncG &g, const Clock &c) { for (auto &h : g.heads) if (h.first == cur->id) { h.second.join(c); return; } g.heads.emplace_back(cur->id, c); }
static void hb_load(const void *p, int sz, int mo) { for (uintptr_t g = (uintptr_t)p >> 2; g <= ((uintptr_t)p + sz - 1) >> 2; g++) { auto it = sync_g.find(g); if (it != sync_g.end()) hb_acquire_from(it->second, mo); } }
static void hb_store(const void *p, int sz, int mo) {
  for (uintptr_t g = (uintptr_t)p >> 2; g <= ((uintptr_t)p + sz - 1) >> 2; g++) {
    SyncG &s = sync_g[g];
    // the release sequence survives stores of the thread that heads it (C11)
    std::vector<std::pair<int, Clock>> keep; for (auto &h : s.heads) if (h.first == cur->id) keep.push_back(h);
    s.heads.swap(keep);
    if (mo == 3 || mo == 4 || mo == 5) hb_add(s, cur->vc); else hb_add(s, cur->relfence);
  }
}
static void hb_rmw(const void *p, int sz, int mo) {
  for (uintptr_t g = (uintptr_t)p >> 2; g <= ((uintptr_t)p + sz - 1) >> 2; g++) {
    SyncG &s = sync_g[g];
    hb_acquire_from(s, mo);
    if (mo == 3 || mo == 4 || mo == 5) hb_add(s, cur->vc); else hb_add(s, cur->relfence);
  }
}
static void hb_fence(int mo) {
  static SyncG scf;
  if (mo == 1 || mo == 2 || mo == 4 || mo == 5) cur->vc.join(cur->acqfence);
  if (mo == 3 || mo == 4 || mo == 5) cur->relfence = cur->vc;
}
struct OClock { Clock c; };
static std::unordered_map<const void *, Clock> obj_clock;
static void hb_obj_rel(const void *o) { if (ST.hb) obj_clock[o].join(cur->vc); }
static void hb_obj_acq(const void *o) { if (ST.hb) cur->vc.join(obj_clock[o]); }

// ------------------------------------------------------------------ checked heap
static u8 *arena, *arena_end, *arena_cur; static u8 *shadow; // one byte per 8 bytes: 0 none 1 live 2 freed
static const size_t ARENA = 6ULL << 30;
struct Blk { size_t size; bool live; int how; };
static std::map<u8 *, Blk> *blks;
static int nlive;
void vrt_arena_init() {
  arena = (u8 *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shadow = (u8 *)mmap(nullptr, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED || shadow == MAP_FAILED) { perror("arena"); exit(2); }
  arena_end = arena + ARENA; arena_cur = arena; blks = new std::map<u8 *, Blk>();
}
static int fault_which, fault_after;
extern "C" void vrt_set_fault(int which, int after) { fault_which = which; fault_after = after; }
static bool fault(int which) { if (fault_which != which) return false; if (fault_after-- > 0) return false; fault_which = 0; vev(E_Fault, which, 0, 0, 0); return true; }
static void *a_alloc(size_t align, size_t size, bool zero, int how) {
  if (running) { point(A_CALL); flush(cur); }
  if (fault(1)) return nullptr;
  if (align < 16) align = 16;
  u8 *p = (u8 *)(((uintptr_t)arena_cur + 512 + align - 1) & ~(uintptr_t)(align - 1));
  if (p + size + 4096 > arena_end) return nullptr;
  arena_cur = p + size + 64;
  size_t g = (size + 7) / 8; memset(shadow + (p - arena) / 8, 1, g ? g : 1);
  if (size & 7) shadow[(p - arena) / 8 + g - 1] = 8 + (size & 7);   // the last granule is partly usable
  if (!zero) memset(p, 0xA5, size < 65536 ? size : 65536);
  (*blks)[p] = Blk{size, true, how}; nlive++;
  return p;
}
static void a_free(void *q, int how, size_t len) {
  if (!q) return;
  if (running) { point(A_CALL); flush(cur); }
  auto it = blks->find((u8 *)q);
  if (it == blks->end() || !it->second.live || it->second.how != how || (how == 2 && len != it->second.size)) { vev(E_BadCall, 1, how, 0, 0); return; }
  it->second.live = false; nlive--;
  size_t g = (it->second.size + 7) / 8; memset(shadow + ((u8 *)q - arena) / 8, 2, g ? g : 1);
}
static void chk_stack(u8 *q, int sz, int w);
static inline void chk(const void *p, int sz, int w) {
  u8 *q = (u8 *)p;
  if (__builtin_expect(q >= arena && q < arena_end, 1)) {
    u8 s = shadow[(q - arena) >> 3];
    if (__builtin_expect(s > 8 && (int)((uintptr_t)q & 7) + sz <= s - 8, 0)) return;
    if (__builtin_expect(s == 1 && sz <= 8 && ((uintptr_t)q & 7) + sz > 8, 0)) s = shadow[((q - arena) >> 3) + 1] ? 1 : 0;
    if (__builtin_expect(s != 1, 0)) { vev(E_BadAccess, s == 2 ? 2 : 1, w, sz, 0); vrt_done(); }
  } else if (q < (u8 *)4096) { vev(E_BadAccess, 3, w, sz, 0); vrt_done(); }
  else if (q >= stacks && q < stacks + MAXT * STKSLOT && running) chk_stack(q, sz, w);
}
// another thread's stack: only what is in frames that have not been left
static void chk_stack(u8 *q, int sz, int w) {
  Co *o = &T[(q - stacks) / STKSLOT];
  if (o != cur && (o->state == DEAD || q < (u8 *)o->sp)) { vev(E_BadAccess, 4, w, sz, 0); vrt_done(); }
}

// ------------------------------------------------------------------ TSan ABI: plain accesses
#define RD(N) extern "C" void __tsan_read##N(void *p) { if (cur && onstack(cur, p)) return; point(A_R); chk(p, N, 0); } \
  extern "C" void __tsan_unaligned_read##N(void *p) { __tsan_read##N(p); } extern "C" void __tsan_volatile_read##N(void *p) { __tsan_read##N(p); } \
  extern "C" void __tsan_unaligned_volatile_read##N(void *p) { __tsan_read##N(p); }
static inline void wr(void *p, int n) {
  if (!running || onstack(cur, p)) { chk(p, n, 1); return; }
  point(A_W);
  chk(p, n, 1);
  if (ST.tso && !fairmode()) {
    if (n > 8) { flush(cur); return; }
    cur->pend = true; cur->pw.p = p; cur->pw.sz = (u8)n; cur->pw.old = ld(p, n);
  } else flush(cur);       // fair phase: no store may stay in the buffer behind a direct one
}
#define WR(N) extern "C" void __tsan_write##N(void *p) { wr(p, N); } \
  extern "C" void __tsan_unaligned_write##N(void *p) { wr(p, N); } extern "C" void __tsan_volatile_write##N(void *p) { wr(p, N); } \
  extern "C" void __tsan_unaligned_volatile_write##N(void *p) { wr(p, N); } \
  extern "C" void __tsan_read_write##N(void *p) { wr(p, N); } extern "C" void __tsan_unaligned_read_write##N(void *p) { wr(p, N); }
RD(1) RD(2) RD(4) RD(8) RD(16) WR(1) WR(2) WR(4) WR(8) WR(16)
static void chk_range(const void *p, size_t n, int w) { if (!n) return; for (size_t i = 0; i < n; i += 8) chk((u8 *)p + i, 1, w); chk((u8 *)p + n - 1, 1, w); }
extern "C" void __tsan_read_range(void *p, size_t n) { point(A_R); chk_range(p, n, 0); }
extern "C" void __tsan_write_range(void *p, size_t n) { point(A_W); chk_range(p, n, 1); if (running) flush(cur); }
extern "C" void *__tsan_memcpy(void *d, const void *s, size_t n) { point(A_W); chk_range(d, n, 1); chk_range(s, n, 0); if (running) flush(cur); return memcpy(d, s, n); }
extern "C" void *__tsan_memmove(void *d, const void *s, size_t n) { point(A_W); chk_range(d, n, 1); chk_range(s, n, 0); if (running) flush(cur); return memmove(d, s, n); }
extern "C" void *__tsan_memset(void *d, int c, size_t n) { point(A_W); chk_range(d, n, 1); if (running) flush(cur); return memset(d, c, n); }
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void *) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_update(void *, void *) {}
extern "C" void __tsan_vptr_read(void *) {}
extern "C" void __tsan_ignore_thread_begin() {}
extern "C" void __tsan_ignore_thread_end() {}

// ------------------------------------------------------------------ TSan ABI: atomics
static int dbg = -1;      // VRT_DEBUG=1 logs every atomic update to /tmp/vrt.log
static void dlog(const char *w, const void *p, u64 o, u64 n) {
  static FILE *f; if (!f) f = fopen("/tmp/vrt.log", "w");
  fprintf(f, "%llu ev%d t%d %s %p: %llx -> %llx\n", (unsigned long long)steps, SH->nev, cur ? cur->id : -1, w, p, (unsigned long long)o, (unsigned long long)n); fflush(f);
}
#define DLOG(w, p, o, n) do { if (__builtin_expect(dbg != 0, 0)) { if (dbg < 0) dbg = getenv("VRT_DEBUG") != nullptr; if (dbg) dlog(w, (const void *)(p), (u64)(o), (u64)(n)); } } while (0)
static inline void chgspin(bool ch) { if (ch && cur) cur->spin = 0; }
template <class U> static U at_load(const volatile U *p, int mo) {
  point(A_AL); chk((void *)p, sizeof(U), 0);
  U v = *p; if (ST.hb && running) hb_load((void *)p, sizeof(U), mo & 7); return v;
}
template <class U> static void at_store(volatile U *p, U v, int mo) {
  point(A_AS); chk((void *)p, sizeof(U), 1); mo &= 7;
  U old = *p; chgspin(old != v); DLOG("store", p, old, v);
  if (running) {
    if (ST.hb) hb_store((void *)p, sizeof(U), mo);
    if (ST.tso && mo != 5 && !fairmode() && !onstack(cur, (void *)p)) { *p = v; sb_put(cur, (void *)p, v, old, sizeof(U)); return; }
    if (mo == 5) flush(cur);
    else if (ST.tso && !cur->sb.empty() && !onstack(cur, (void *)p)) { *p = v; sb_put(cur, (void *)p, v, old, sizeof(U)); return; }
  }
  *p = v;
}
template <class U, class F> static U at_rmw(volatile U *p, int mo, F f) {
  point(A_RMW); chk((void *)p, sizeof(U), 1); if (running) flush(cur);
  U old = *p; U nv = f(old); chgspin(old != nv); DLOG("rmw", p, old, nv); *p = nv; if (ST.hb && running) hb_rmw((void *)p, sizeof(U), mo & 7); return old;
}
template <class U> static U at_cas(volatile U *p, U exp, U des, int mo, int fmo) {
  point(A_RMW); chk((void *)p, sizeof(U), 1); if (running) flush(cur);
  U old = *p;
  if (old == exp) { chgspin(old != des); DLOG("cas", p, old, des); *p = des; if (ST.hb && running) hb_rmw((void *)p, sizeof(U), mo & 7); }
  else if (ST.hb && running) hb_load((void *)p, sizeof(U), fmo & 7);
  return old;
}
#define AT(B, U) \
  extern "C" U __tsan_atomic##B##_load(const volatile U *p, int mo) { return at_load<U>(p, mo); } \
  extern "C" void __tsan_atomic##B##_store(volatile U *p, U v, int mo) { at_store<U>(p, v, mo); } \
  extern "C" U __tsan_atomic##B##_exchange(volatile U *p, U v, int mo) { return at_rmw<U>(p, mo, [=](U) { return v; }); } \
  extern "C" U __tsan_atomic##B##_fetch_add(volatile U *p, U v, int mo) { return at_rmw<U>(p, mo, [=](U o) { return (U)(o + v); }); } \
  extern "C" U __tsan_atomic##B##_fetch_sub(volatile U *p, U v, int mo) { return at_rmw<U>(p, mo, [=](U o) { return (U)(o - v); }); } \
  extern "C" U __tsan_atomic##B##_fetch_and(volatile U *p, U v, int mo) { return at_rmw<U>(p, mo, [=](U o) { return (U)(o & v); }); } \
  extern "C" U __tsan_atomic##B##_fetch_or(volatile U *p, U v, int mo) { return at_rmw<U>(p, mo, [=](U o) { return (U)(o | v); }); } \
  extern "C" U __tsan_atomic##B##_fetch_xor(volatile U *p, U v, int mo) { return at_rmw<U>(p, mo, [=](U o) { return (U)(o ^ v); }); } \
  extern "C" U __tsan_atomic##B##_fetch_nand(volatile U *p, U v, int mo) { return at_rmw<U>(p, mo, [=](U o) { return (U) ~(o & v); }); } \
  extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile U *p, U *c, U v, int mo, int fmo) { U o = at_cas<U>(p, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; } \
  extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile U *p, U *c, U v, int mo, int fmo) { U o = at_cas<U>(p, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; } \
  extern "C" U __tsan_atomic##B##_compare_exchange_val(volatile U *p, U c, U v, int mo, int fmo) { return at_cas<U>(p, c, v, mo, fmo); }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
extern "C" void __tsan_atomic_thread_fence(int mo) { point(A_F); mo &= 7; if (running) { if (mo == 5) flush(cur); if (ST.hb) hb_fence(mo); } }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ emulated TLS
struct EmuTls { size_t size, align; union { uintptr_t idx; void *addr; } o; void *val; };
extern "C" void *__emutls_get_address(EmuTls *c) {
  static uintptr_t next = 0;
  static void *maintls[64];
  if (!c->o.idx) c->o.idx = ++next;
  if (c->o.idx >= 64) abort();
  void **slot = cur ? &cur->tls[c->o.idx] : &maintls[c->o.idx];
  if (!*slot) { *slot = calloc(1, c->size + 64); if (c->val) memcpy(*slot, c->val, c->size); }
  return *slot;
}

// ------------------------------------------------------------------ services for the interpreter
extern "C" int vrt_self(void) { return cur->id; }
extern "C" void vrt_point(void) { point(A_R); }
extern "C" void vrt_letrun(int n) {
  capture(); flush(cur);
  for (int i = 0; i < nT; i++) T[i].frozen_until = 0;
  if (fair_until < steps + n) fair_until = steps + n;
  cur->parked_until = steps + n; slice = 1; resched();
}
extern "C" int vrt_quiesce(int n) {
  vrt_letrun(n);
  int k = 0; for (int i = 0; i < nT; i++) if (T[i].worker && T[i].state == RUNNABLE) k++;
  return k;
}
extern "C" int vrt_zombies(void) { int k = 0; for (int i = 0; i < nT; i++) if (T[i].created_by_lace && !(T[i].finished && (T[i].joined || T[i].detached))) k++; return k; }
extern "C" int vrt_livealloc(void) { return nlive; }
extern "C" int vrt_threads_created(void) { return tcreated; }
extern "C" int vrt_stack_kb(void) { return last_stack_kb; }
extern "C" void vrt_solo(int b, int what) {
  capture(); if (fairmode() || solo_owner) return;
  solo_owner = cur; solo_left = b; solo_exceeded = false; solo_what = what; solo = nullptr;
  solo_delay = chance(0.5) ? 0 : 1 + (int)rndn(chance(0.6) ? 20 : 80); if (!solo_delay) solo = cur;
}
extern "C" void vrt_solo_done(void) { if (solo_owner != cur) return; solo = solo_owner = nullptr; solo_delay = 0; int ok = !solo_exceeded; vev(E_Halt, ok, solo_what, 0, 0); }
extern "C" void vrt_solo_reached(void) { vrt_solo_done(); }
extern "C" int vrt_spurious() { return ST.weak > 0 && !fairmode() && chance(ST.weak); }
extern "C" void *vrt_xrealloc(void *p, size_t n) { return realloc(p, n); }
extern "C" void vrt_xfree(void *p) { free(p); }
extern "C" void vrt_spawn_ext(int id, void (*fn)(int)) { Co *c = co_new(id); c->extfn = fn; c->extarg = id; }
extern "C" void vrt_join_ext(int id) { hb_obj_rel(&T[id].stk); if (!T[id].finished) block(&T[id].finished); if (ST.hb) cur->vc.join(T[id].vc); }
static bool flags[64]; static char flagobj[64];
extern "C" void vrt_block_on(int w) { if (!flags[w]) block(&flagobj[w]); }
extern "C" int vrt_flag(int w) { return flags[w]; }
extern "C" void vrt_set_flag(int w) { flags[w] = true; while (Co *c = anywait(&flagobj[w])) wake(c, 0); }
static int saved_stdout = -1, memfd_ = -1;
extern "C" int vrt_capture_stdout(int on, char *buf, int len) {
  fflush(stdout);
  if (on) { saved_stdout = dup(1); memfd_ = memfd_create("out", 0); dup2(memfd_, 1); return 0; }
  dup2(saved_stdout, 1); close(saved_stdout);
  off_t n = lseek(memfd_, 0, SEEK_END); if (n > len - 1) n = len - 1;
  lseek(memfd_, 0, SEEK_SET); ssize_t r = read(memfd_, buf, n); if (r < 0) r = 0; buf[r] = 0; close(memfd_);
  return (int)r;
}

// ------------------------------------------------------------------ shims: heap
extern "C" void *vrt_malloc(size_t n) { return a_alloc(16, n, false, 1); }
extern "C" void *vrt_calloc(size_t a, size_t b) { void *p = a_alloc(16, a * b, false, 1); if (p) memset(p, 0, a * b); return p; }
extern "C" void *vrt_aligned_alloc(size_t al, size_t n) { return a_alloc(al, n, false, 1); }
extern "C" int vrt_posix_memalign(void **p, size_t al, size_t n) { *p = a_alloc(al, n, false, 1); return *p ? 0 : ENOMEM; }
extern "C" void vrt_free(void *p) { a_free(p, 1, 0); }
extern "C" void *vrt_realloc(void *p, size_t n) {
  void *q = a_alloc(16, n, false, 1); if (p && q) { auto it = blks->find((u8 *)p); if (it != blks->end()) memcpy(q, p, std::min(n, it->second.size)); a_free(p, 1, 0); } return q; }
extern "C" void *vrt_mmap(void *, size_t n, int, int, int, off_t) { void *p = a_alloc(4096, n, true, 2); return p ? p : MAP_FAILED; }
extern "C" void *vrt_memalign(size_t al, size_t n) { return vrt_aligned_alloc(al, n); }
extern "C" void *vrt_mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { return vrt_mmap(a, n, p, f, fd, o); }
extern "C" int vrt_munmap(void *p, size_t n) { a_free(p, 2, n); return 0; }

// ------------------------------------------------------------------ shims: process
static int errmsg() { fflush(stderr); return lseek(2, 0, SEEK_END) > 0; }
extern "C" void vrt_exit(int code) { vev(E_Exit, code & 255, errmsg(), 0, 0); vrt_done(); }
extern "C" void vrt__exit(int code) { vrt_exit(code); }
extern "C" void vrt_abort(void) { vev(E_Exit, 134, errmsg(), 0, 0); vrt_done(); }
extern "C" int vrt_getrlimit(int r, struct rlimit *l) { int k = getrlimit((__rlimit_resource)r, l); if (r == RLIMIT_STACK) { l->rlim_cur = ST.rlim ? (rlim_t)ST.rlim * 1024 : RLIM_INFINITY; } return k; }
extern "C" int vrt_getrlimit64(int r, struct rlimit *l) { return vrt_getrlimit(r, l); }
extern "C" long vrt_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return ST.npus; return sysconf(n); }
extern "C" int vrt_sched_getaffinity(int, size_t n, cpu_set_t *s) { memset(s, 0, n); for (int i = 0; i < ST.npus; i++) CPU_SET_S(i, n, s); return 0; }
extern "C" int vrt_sched_yield(void) { point(A_CALL); slice = 1; return 0; }
extern "C" int vrt_usleep(unsigned) { point(A_CALL); flush(cur); slice = 1; resched(); return 0; }
extern "C" int vrt_nanosleep(const struct timespec *, struct timespec *) { return vrt_usleep(0); }
extern "C" unsigned vrt_sleep(unsigned) { return vrt_usleep(0); }
extern "C" int vrt_rand(void) { return (int)(rnd() & 0x7fffffff); }
static u64 vclock_ns() { return 1000000000ULL + steps * 20; }
extern "C" int vrt_clock_gettime(clockid_t, struct timespec *t) { point(A_CALL); u64 n = vclock_ns(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
extern "C" int vrt_gettimeofday(struct timeval *t, void *) { point(A_CALL); u64 n = vclock_ns(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; }

// ------------------------------------------------------------------ shims: threads
extern "C" int vrt_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  point(A_CALL); flush(cur);
  if (fault(2)) return EAGAIN;
  int id = -1; for (int i = 8; i < MAXT; i++) if (T[i].state == DEAD) { if (!T[i].created_by_lace || T[i].joined || T[i].detached || ST.reuse) { id = i; break; } }
  if (id < 0) return EAGAIN;
  Co *c = co_new(id); c->fn = fn; c->arg = arg; c->worker = true; c->created_by_lace = true;
  int ds = PTHREAD_CREATE_JOINABLE; size_t ss = 0;
  if (a) { pthread_attr_getdetachstate(a, &ds); pthread_attr_getstacksize(a, &ss); }
  c->detached = ds == PTHREAD_CREATE_DETACHED; last_stack_kb = (int)(ss / 1024); tcreated++;
  *t = (pthread_t)(uintptr_t)(id + 1);
  return 0;
}
static Co *byp(pthread_t t) { return &T[(uintptr_t)t - 1]; }
extern "C" int vrt_pthread_join(pthread_t t, void **r) { point(A_CALL); Co *c = byp(t); if (!c->finished) block(&c->finished); c->joined = true; if (ST.hb) cur->vc.join(c->vc); if (r) *r = c->ret; return 0; }
extern "C" int vrt_pthread_detach(pthread_t t) { point(A_CALL); byp(t)->detached = true; return 0; }
extern "C" pthread_t vrt_pthread_self(void) { return (pthread_t)(uintptr_t)(cur->id + 1); }
extern "C" int vrt_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
extern "C" void vrt_pthread_exit(void *r) { cur->ret = r; co_exit(); abort(); }
extern "C" int vrt_pthread_yield(void) { return vrt_sched_yield(); }
extern "C" int vrt_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
extern "C" int vrt_pthread_key_create(pthread_key_t *k, void (*)(void *)) { static unsigned n = 100; *k = n++; return 0; }
extern "C" int vrt_pthread_key_delete(pthread_key_t) { return 0; }
extern "C" void *vrt_pthread_getspecific(pthread_key_t k) { return cur->keys[k]; }
extern "C" int vrt_pthread_setspecific(pthread_key_t k, const void *v) { cur->keys[k] = (void *)v; return 0; }
extern "C" int vrt_pthread_once(pthread_once_t *o, void (*f)(void)) { if (*o == PTHREAD_ONCE_INIT) { *(int *)o = 12345; f(); } return 0; }

struct Mx { int owner = -1; };
static std::unordered_map<const void *, Mx> mx;
static std::unordered_map<const void *, long> sems;
static void mlock(const void *m) { for (;;) { Mx &x = mx[m]; if (x.owner < 0) { x.owner = cur->id; hb_obj_acq(m); return; } block((void *)m); } }
static void munlock(const void *m) { hb_obj_rel(m); mx[m].owner = -1; while (Co *c = anywait((void *)m)) wake(c, 0); }
extern "C" int vrt_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { mx[m] = Mx(); return 0; }
extern "C" int vrt_pthread_mutex_destroy(pthread_mutex_t *m) { mx.erase(m); return 0; }
extern "C" int vrt_pthread_mutex_lock(pthread_mutex_t *m) { point(A_CALL); flush(cur); mlock(m); return 0; }
extern "C" int vrt_pthread_mutex_trylock(pthread_mutex_t *m) { point(A_CALL); flush(cur); Mx &x = mx[m]; if (x.owner >= 0) return EBUSY; x.owner = cur->id; hb_obj_acq(m); return 0; }
extern "C" int vrt_pthread_mutex_unlock(pthread_mutex_t *m) { point(A_CALL); flush(cur); munlock(m); return 0; }
extern "C" int vrt_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
extern "C" int vrt_pthread_cond_destroy(pthread_cond_t *) { return 0; }
extern "C" int vrt_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  point(A_CALL); flush(cur); munlock(m);
  if (ST.eintr && !fairmode() && chance(0.1)) { slice = 1; resched(); } // spurious wakeup
  else { block(c); hb_obj_acq(c); }
  mlock(m); return 0;
}
extern "C" int vrt_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { point(A_CALL); flush(cur); munlock(m); slice = 1; resched(); mlock(m); (void)c; return ETIMEDOUT; }
extern "C" int vrt_pthread_cond_signal(pthread_cond_t *c) { point(A_CALL); flush(cur); hb_obj_rel(c); if (Co *w = anywait(c)) wake(w, 0); return 0; }
extern "C" int vrt_pthread_cond_broadcast(pthread_cond_t *c) { point(A_CALL); flush(cur); hb_obj_rel(c); while (Co *w = anywait(c)) wake(w, 0); return 0; }
// using a semaphore that is not initialised, or destroyed already
static void semok(const void *s) { if (!sems.count(s)) { vev(E_BadCall, 3, 0, 0, 0); vrt_done(); } }
extern "C" int vrt_sem_init(sem_t *s, int, unsigned v) { point(A_CALL); flush(cur); sems[s] = v; return 0; }
extern "C" int vrt_sem_destroy(sem_t *s) { point(A_CALL); flush(cur); if (nwait(s)) vev(E_BadCall, 2, 0, 0, 0); semok(s); sems.erase(s); return 0; }
extern "C" int vrt_sem_wait(sem_t *s) {
  point(A_CALL); flush(cur); semok(s);
  for (;;) {
    long &v = sems[s];
    if (v > 0) { v--; hb_obj_acq(s); return 0; }
    if (ST.eintr && !fairmode() && chance(0.25)) { for (int i = rndn(3); i > 0; i--) { slice = 1; resched(); } errno = EINTR; return -1; }
    block(s);
  }
}
extern "C" int vrt_sem_trywait(sem_t *s) { point(A_CALL); flush(cur); semok(s); long &v = sems[s]; if (v > 0) { v--; hb_obj_acq(s); return 0; } errno = EAGAIN; return -1; }
extern "C" int vrt_sem_timedwait(sem_t *s, const struct timespec *) { point(A_CALL); flush(cur); semok(s); long &v = sems[s]; if (v > 0) { v--; hb_obj_acq(s); return 0; } slice = 1; resched(); long &w = sems[s]; if (w > 0) { w--; hb_obj_acq(s); return 0; } errno = ETIMEDOUT; return -1; }
extern "C" int vrt_sem_getvalue(sem_t *s, int *v) { point(A_CALL); *v = (int)sems[s]; return 0; }
extern "C" int vrt_sem_post(sem_t *s) { point(A_CALL); flush(cur); semok(s); hb_obj_rel(s); sems[s]++; if (Co *w = anywait(s)) wake(w, 0); return 0; }
struct Bar { unsigned n, cnt, gen; };
static std::unordered_map<const void *, Bar> bars;
extern "C" int vrt_pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) { bars[b] = Bar{n, 0, 0}; return 0; }
extern "C" int vrt_pthread_barrier_destroy(pthread_barrier_t *b) { bars.erase(b); return 0; }
extern "C" int vrt_pthread_barrier_wait(pthread_barrier_t *b) {
  point(A_CALL); flush(cur); hb_obj_rel(b);
  Bar &x = bars[b]; unsigned g = x.gen;
  if (++x.cnt == x.n) { x.cnt = 0; x.gen++; while (Co *w = anywait(b)) wake(w, 0); hb_obj_acq(b); return PTHREAD_BARRIER_SERIAL_THREAD; }
  while (bars[b].gen == g) block(b);
  hb_obj_acq(b); return 0;
}
extern "C" int vrt_pthread_spin_init(pthread_spinlock_t *m, int) { mx[(void *)m] = Mx(); return 0; }
extern "C" int vrt_pthread_spin_destroy(pthread_spinlock_t *m) { mx.erase((void *)m); return 0; }
extern "C" int vrt_pthread_spin_lock(pthread_spinlock_t *m) { point(A_CALL); flush(cur); mlock((void *)m); return 0; }
extern "C" int vrt_pthread_spin_unlock(pthread_spinlock_t *m) { point(A_CALL); flush(cur); munlock((void *)m); return 0; }
extern "C" long vrt_syscall(long nr, ...) {
  va_list ap; va_start(ap, nr); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long); va_end(ap);
  if (nr == SYS_futex) {
    point(A_CALL); flush(cur); int op = (int)b & 127;
    if (op == 0 || op == 9) { if (*(int *)a != (int)c) { errno = EAGAIN; return -1; } block((void *)a); return 0; }
    if (op == 1 || op == 10) { long k = 0; while (k < c) { Co *w = anywait((void *)a); if (!w) break; wake(w, 0); k++; } return k; }
  }
  if (nr == SYS_sched_yield) return vrt_sched_yield();
  if (nr == SYS_gettid) return 1000 + cur->id;
  return -1;
}

// ------------------------------------------------------------------ one execution (in a forked child)
void vrt_run(u64 seed, void (*mainfn)(int)) {
  rs = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; for (int i = 0; i < 8; i++) rnd();
  lowprio = 900000; npct = 0;
  if (ST.kind == K_PCT) { npct = ST.pctd; for (int i = 0; i < npct; i++) pctpts[i] = 1 + rndn(ST.pctk); }
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 10; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  Co *m = co_new(0); m->extfn = mainfn; m->extarg = 0;
  cur = m; running = true; slice = 1;
  void *dummy; vrt_switch(&dummy, m->sp);
  abort();
}
