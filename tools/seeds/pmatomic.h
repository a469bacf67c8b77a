/* Wraps the repository's pmatomic.h: a demonstration can run code right before and after each
 * compare-and-swap or fetch-and-add, which makes an interleaving deterministic. */
#include_next <pmatomic.h>
#ifndef DEMO_PMATOMIC
#define DEMO_PMATOMIC
#ifdef __cplusplus
extern "C" {
#endif
extern void demo_before(void *obj);
extern void demo_after(void *obj);
#ifdef __cplusplus
}
#endif
#undef pm_atomic_compare_exchange_weak
#define pm_atomic_compare_exchange_weak(o, e, d) ({ demo_before((void *)(o)); \
	int rc_ = __atomic_compare_exchange_n(o, e, d, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); demo_after((void *)(o)); rc_; })
#undef pm_atomic_compare_exchange_strong
#define pm_atomic_compare_exchange_strong(o, e, d) pm_atomic_compare_exchange_weak(o, e, d)
#undef pm_atomic_fetch_add
#define pm_atomic_fetch_add(o, v) ({ demo_before((void *)(o)); \
	__typeof__(*(o)) rc_ = __atomic_fetch_add(o, v, __ATOMIC_SEQ_CST); demo_after((void *)(o)); rc_; })
#undef pm_atomic_exchange
#define pm_atomic_exchange(o, v) ({ demo_before((void *)(o)); \
	__typeof__(*(o)) rc_ = __atomic_exchange_n(o, v, __ATOMIC_SEQ_CST); demo_after((void *)(o)); rc_; })
#endif
