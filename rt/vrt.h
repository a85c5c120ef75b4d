/* Runtime interface shared by the instrumented interpreter (tasks.c) and the driver. */
#ifndef VRT_H
#define VRT_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- event kinds: the alphabet of spec/LaceTrace.tla ---- */
#define EVENTS(X) \
  X(NONE) X(StartInv) X(StartRet) X(StopInv) X(StopRet) X(Spawn) X(Call) X(CallRet) \
  X(Run) X(RunRet) X(Nf) X(NfRet) X(Tg) X(TgRet) X(Sync) X(SyncRet) X(Drop) X(DropRet) \
  X(Start) X(End) X(Bar) X(BarRet) X(Yield) X(YieldRet) X(Steal) X(StealRet) \
  X(Insp) X(Sus) X(SusRet) X(Res) X(ResRet) X(Quiet) X(Share) X(Halt) X(Report) X(Reset) \
  X(Exit) X(Fin) X(Deadlock) X(Livelock) X(Hang) X(Crash) X(BadAccess) X(BadCall) X(Probe) \
  X(ExtQ) X(SetStack) X(Fault) X(StopMid) X(Trng) X(Wait) X(Bulk)
enum { 
#define X(n) E_##n,
EVENTS(X)
#undef X
E_MAX };

#define VC_N 12           /* threads covered by vector clocks */
typedef struct { uint16_t th; uint8_t k, nvc; int32_t a, b, c, d; uint16_t vc[VC_N]; } Ev;

/* ---- called from the instrumented interpreter ---- */
void vev(int k, int a, int b, int c, int d);   /* record an event of the calling thread */
int  vrt_self(void);                           /* logical thread id: 0 main, 1..7 outside, >=8 workers */
void vrt_letrun(int steps);                    /* let all other threads run fairly for a while */
int  vrt_quiesce(int steps);                   /* same, longer; returns number of unblocked worker threads */
int  vrt_zombies(void);                        /* finished or running worker threads nobody joined/detached */
int  vrt_livealloc(void);
int  vrt_threads_created(void);
int  vrt_stack_kb(void);                       /* stack size given to the last created thread */
void vrt_solo(int budget, int what);           /* halt all other threads; what: 0 spawn 1 sync/drop 2 steal */
void vrt_solo_done(void);                      /* operation returned: records Halt(ok, what) */
void vrt_solo_reached(void);                   /* the operation got as far as running a task */
void vrt_spawn_ext(int id, void (*fn)(int));
void vrt_join_ext(int id);
void vrt_point(void);
void vrt_set_fault(int which, int after);
void vrt_done(void) __attribute__((noreturn));
int  vrt_capture_stdout(int on, char *buf, int len);
int  vrt_parse_report(const char *buf, int stopped, int nw, int *tasks, int *steals);
void vrt_block_on(int what);                   /* wait until flag `what` is set */
void vrt_set_flag(int what);
int  vrt_flag(int what);
void *vrt_xrealloc(void *p, size_t n);
void vrt_xfree(void *p);

/* ---- program data (driver side, read by the interpreter) ---- */
enum { OP_SPAWN = 1, OP_CALL, OP_SYNC, OP_DROP, OP_NF, OP_TG, OP_RUN, OP_RUNEX, OP_YIELD, OP_SHAREALL,
       OP_STEAL, OP_BAR, OP_LETRUN, OP_INSP, OP_WORK, OP_VARS, OP_SHARECHK, OP_CALLCB, OP_BURST, OP_UNBURST,
       OP_UNDROP, OP_SETF, OP_WAITF, OP_STEALWAIT, OP_RNG, OP_BULK, OP_UNBULK, OP_CHURN, OP_ONLYW,
       /* script ops (outside threads) */
       S_START = 40, S_STOP, S_RUN, S_RUNEX, S_NF, S_TG, S_SUS, S_RES, S_QUIET, S_FORK, S_JOIN, S_REPORT,
       S_RESET, S_SETSTACK, S_LETRUN, S_PROBE, S_FAULT, S_WAITF, S_SETF, S_EXTQ, S_VERB };
typedef struct { int16_t op; int32_t a, b; } Op;
typedef struct { int16_t nops; Op ops[48]; } Def;
#define MAXDEF 64
#define MAXSCRIPT 8
typedef struct {
  int ndef; Def def[MAXDEF];
  Def script[MAXSCRIPT];      /* script[i] = thread i */
  int kindmode, k1, k2;       /* how task kinds are chosen, see inst_new */
  int maxinst;                /* instance budget: beyond it, further spawns/calls are skipped */
} Prog;
extern Prog *P;

int  inst_new(int def, int how);        /* how: 0 spawn 1 call 2 newframe 3 together 4 run */
int  inst_def(int id);
int  inst_kind(int id);
int  inst_ok(int id);
void inst_free0(int id);                /* the instance is no longer outstanding (matters for arity 0) */
int  kind0_cur(int kind);
extern const int NKINDS;
int  kind_arity(int k);
int  kind_void(int k);
void ext_main(int script);              /* interpreter entry of outside threads */
#ifdef __cplusplus
}
#endif
#endif
