/* Included before everything else when C is compiled: a weak compare-and-swap may fail although the values agree. */
#ifndef __cplusplus
#include <stdatomic.h>
int vrt_spurious(void);
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_weak_explicit
#define atomic_compare_exchange_weak(o, e, d) atomic_compare_exchange_weak_explicit(o, e, d, memory_order_seq_cst, memory_order_seq_cst)
#define atomic_compare_exchange_weak_explicit(o, e, d, m, f) __extension__({ __typeof__(o) vrt_o_ = (o); __typeof__(e) vrt_e_ = (e); \
  vrt_spurious() ? (*vrt_e_ = __c11_atomic_load(vrt_o_, f), 0) : (int)__c11_atomic_compare_exchange_weak(vrt_o_, vrt_e_, d, m, f); })
#endif
