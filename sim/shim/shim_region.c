#include <stdalign.h>
#include <stdint.h>
/* Instrumented wrappers: region, both flavours. */
#include "slab_cache.h"
#include "region.h"
#include "shim.h"
#define R ((struct region *)r)
size_t x_region_sizeof(void) { return sizeof(struct region); }
void x_region_create(void *r, void *c) { region_create(R, (struct slab_cache *)c); }
void x_region_free(void *r) { region_free(R); }
#ifdef ENABLE_ASAN	/* not provided in this flavour */
void x_region_free_after(void *r, size_t n) { if (region_used(R) > n) region_free(R); }
#else
void x_region_free_after(void *r, size_t n) { region_free_after(R, n); }
#endif
void x_region_destroy(void *r) { region_destroy(R); }
void x_region_reset(void *r) { region_reset(R); }
void x_region_truncate(void *r, size_t used) { region_truncate(R, used); }
void *x_region_reserve(void *r, size_t n) { return region_reserve(R, n); }
void *x_region_alloc(void *r, size_t n) { return region_alloc(R, n); }
void *x_region_aligned_reserve(void *r, size_t n, size_t al) { return region_aligned_reserve(R, n, al); }
void *x_region_aligned_alloc(void *r, size_t n, size_t al) { return region_aligned_alloc(R, n, al); }
void *x_region_alloc_array(void *r, size_t n, size_t *bytes) { return region_alloc_array(R, uint64_t, n, bytes); }
struct aligned_object { char c[100]; } __attribute__((aligned(32)));
void *x_region_alloc_object(void *r, size_t *bytes) { return region_alloc_object(R, struct aligned_object, bytes); }
void *x_region_alloc_cb(void *r, size_t n) { return region_alloc_cb(r, n); }
void *x_region_reserve_cb(void *r, size_t *n) { return region_reserve_cb(r, n); }
void *x_region_join(void *r, size_t n) { return region_join(R, n); }
size_t x_region_used(void *r) { return region_used(R); }
size_t x_region_total(void *r) { return region_total(R); }
static void on_alloc(struct region *r, size_t size, void *arg) { h_region_cb(arg, 0, size, region_used(r)); }
static void on_trunc(struct region *r, size_t used, void *arg) { h_region_cb(arg, 1, used, region_used(r)); }
void x_region_set_callbacks(void *r, void *arg) { region_set_callbacks(R, on_alloc, on_trunc, arg); }
