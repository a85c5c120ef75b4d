#ifndef VRT_INT_H
#define VRT_INT_H
#include "vrt.h"
enum { K_RW, K_PCT, K_FREEZE, K_RR };
struct Strat {
  int kind; double p; int pctd; unsigned pctk; double wfreeze; unsigned flen;
  bool tso, hb, eintr; double weak; double pc; unsigned sbage;
  uint64_t soft, hard; int npus; unsigned rlim; bool reuse;
};
extern Strat ST; extern const char *EN[];
#define SHM_EV 60000
struct GEv { int k, th, a, by; };              // an event the threads are steered to (a < 0: any; by: the thread that created the task)
void vrt_guide(const GEv *g, int n); void vrt_pregate(int k);
struct Shm { int nev, over; uint64_t steps, switches; int nthreads, gpos, gtotal; Ev ev[SHM_EV]; };
extern Shm *SH;
uint64_t rnd(); uint32_t rndn(uint32_t n);
void vrt_arena_init();
void vrt_run(uint64_t seed, void (*mainfn)(int));
#endif
