/* What the harness sees of the library: opaque objects and plain calls. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
size_t x_quota_sizeof(void);
void x_quota_init(void *q, size_t total);
size_t x_quota_total(void *q);
size_t x_quota_used(void *q);
void x_quota_get(void *q, size_t *t, size_t *u);
long x_quota_set(void *q, size_t n);
long x_quota_use(void *q, size_t n);
long x_quota_release(void *q, size_t n);
size_t x_quota_max(void);
size_t x_quota_unit(void);

size_t x_lessor_sizeof(void);
void x_lessor_create(void *l, void *q);
void x_lessor_destroy(void *l);
long x_lease(void *l, long n);
long x_end_lease(void *l, size_t n);
size_t x_leased(void *l);
size_t x_lease_available(void *l);
size_t x_lease_chunk(void);

size_t x_lifo_sizeof(void);
void x_lifo_init(void *h);
void x_lifo_push(void *h, void *e);
void *x_lifo_pop(void *h);
int x_lifo_empty(void *h);

size_t x_arena_sizeof(void);
int x_arena_create(void *a, void *q, size_t prealloc, unsigned slab_size, int flags);
void x_arena_destroy(void *a);
void *x_slab_map(void *a);
void x_slab_unmap(void *a, void *p);
void x_arena_mprotect(void *a);
size_t x_arena_slab_size(void *a);
size_t x_arena_prealloc(void *a);
size_t x_arena_used(void *a);
int x_test_feature(unsigned f);		/* 0 dontdump */
int x_has_dontdump(void);		/* compiled in */
int x_arena_flags(int legacy, int shared, int dontdump);
#ifdef __cplusplus
}
#endif
#ifdef __cplusplus
extern "C" {
#endif
int x_is_asan(void);
size_t x_scache_leased(void *c);
void x_asan_init(void);
/* provided by the harness */
void h_assert_failed(const char *file, int line, const char *func, const char *expr);
size_t x_scache_sizeof(void);
void x_scache_create(void *c, void *arena);
void x_scache_destroy(void *c);
void x_scache_set_thread(void *c);
size_t x_scache_used(void *c);
void x_scache_check(void *c);
void *x_slab_get(void *c, size_t n);
void *x_slab_get_order(void *c, int order);
void *x_slab_get_large(void *c, size_t n);
void x_slab_put(void *c, void *s);
void x_slab_put_order(void *c, void *s);
void x_slab_put_large(void *c, void *s);
size_t x_slab_size(void *s);
size_t x_slab_real_size(void *c, size_t n);
size_t x_slab_hdr(void);
void *x_slab_data(void *s);
void *x_slab_from_data(void *d);
size_t x_slab_capacity(void *s);
int x_scache_order_max(void *c);
size_t x_scache_order_size(void *c, int o);
int x_slab_order(void *c, size_t n);
#ifdef __cplusplus
}
#endif
#ifdef __cplusplus
extern "C" {
#endif
size_t x_pool_sizeof(void);
size_t x_pool_hdr(void);
void x_pool_create(void *p, void *cache, unsigned objsize);
void x_pool_create_order(void *p, void *cache, unsigned objsize, int order);
int x_pool_order(void *p);
void x_pool_destroy(void *p);
int x_pool_is_init(void *p);
void *x_pool_alloc(void *p);
void x_pool_free(void *p, void *o);
size_t x_pool_count(void *p);
size_t x_pool_used(void *p);
size_t x_pool_total(void *p);
/* out: objsize, objcount, slabsize, slabcount, used, total */
void x_pool_stats(void *p, size_t *out);
#ifdef __cplusplus
}
#endif
#ifdef __cplusplus
extern "C" {
#endif
size_t x_small_sizeof(void);
float x_small_create(void *s, void *cache, unsigned objsize_min, unsigned gran, float factor);
void x_small_destroy(void *s);
void *x_smalloc(void *s, size_t n);
void x_smfree(void *s, void *p, size_t n);
void x_small_check(void *s);
size_t x_small_real_size(void *s, void *p, size_t n, int *large);
struct x_pool_row { size_t objsize, objcount, slabsize, slabcount, used, total; };
/* returns number of rows; stops after max */
int x_small_stats(void *s, size_t *used, size_t *total, struct x_pool_row *rows, int max);
#ifdef __cplusplus
}
#endif
#ifdef __cplusplus
extern "C" {
#endif
size_t x_region_sizeof(void);
void x_region_create(void *r, void *cache);
void x_region_free(void *r);
void x_region_free_after(void *r, size_t after);
void x_region_destroy(void *r);
void x_region_reset(void *r);
size_t x_guard_sizeof(void);
void x_guard_open(void *guard, void *r);
void x_guard_close(void *guard);
void x_region_truncate(void *r, size_t used);
void *x_region_reserve(void *r, size_t n);
void *x_region_alloc(void *r, size_t n);
void *x_region_aligned_reserve(void *r, size_t n, size_t al);
void *x_region_aligned_alloc(void *r, size_t n, size_t al);
void *x_region_alloc_array(void *r, size_t n, size_t *bytes);
void *x_region_alloc_object(void *r, size_t *bytes);
void *x_region_alloc_cb(void *r, size_t n);
void *x_region_reserve_cb(void *r, size_t *n);
void *x_region_join(void *r, size_t n);
size_t x_region_used(void *r);
size_t x_region_total(void *r);
void x_region_set_callbacks(void *r, void *arg);
/* provided by the harness: kind 0 alloc, 1 truncate */
void h_region_cb(void *arg, int kind, size_t size, size_t used_inside);
#ifdef __cplusplus
}
#endif
#ifdef __cplusplus
extern "C" {
#endif
struct x_iov { void *p; size_t n; };
struct x_svp { int64_t slab_id; size_t pos; };
size_t x_ls_sizeof(void);
void x_ls_create(void *l, void *arena);
void x_ls_destroy(void *l);
void *x_ls_alloc(void *l, size_t n, int64_t id);
void *x_ls_reserve(void *l, size_t n);
void *x_ls_aligned_alloc(void *l, size_t n, size_t al, int64_t id);
void *x_ls_aligned_reserve(void *l, size_t n, size_t al);
void x_ls_gc(void *l, int64_t id);
void *x_ls_alloc_object(void *l, int64_t id);
size_t x_ls_used(void *l);
size_t x_ls_total(void *l);
int64_t x_ls_no_id(void);
void x_svp_create(struct x_svp *s);
int64_t x_ls_to_iovec(void *l, struct x_iov *out, int *cnt, struct x_svp *s);
#ifdef __cplusplus
}
#endif
#ifdef __cplusplus
extern "C" {
#endif
size_t x_ibuf_sizeof(void);
void x_ibuf_create(void *b, void *c, size_t cap);
void x_ibuf_destroy(void *b);
void x_ibuf_reinit(void *b);
void x_ibuf_reset(void *b);
void x_ibuf_shrink(void *b);
size_t x_ibuf_used(void *b);
size_t x_ibuf_unused(void *b);
size_t x_ibuf_capacity(void *b);
size_t x_ibuf_pos(void *b);
void *x_ibuf_rpos(void *b);
void *x_ibuf_wpos(void *b);
void x_ibuf_advance(void *b, size_t n);
void *x_ibuf_reserve(void *b, size_t n);
void *x_ibuf_alloc(void *b, size_t n);
void *x_ibuf_reserve_cb(void *b, size_t *n);
void *x_ibuf_alloc_cb(void *b, size_t n);
void x_ibuf_discard(void *b, size_t n);
void x_ibuf_truncate(void *b, size_t used);
void x_ibuf_consume(void *b, size_t n);
void x_ibuf_consume_before(void *b, const void *p);
struct x_osvp { size_t pos, iov_len, used; };
size_t x_obuf_sizeof(void);
int x_obuf_iov_max(void);
int x_obuf_checked_max(void);
void x_obuf_create(void *o, void *c, size_t cap);
void x_obuf_destroy(void *o);
void x_obuf_reset(void *o);
int x_obuf_is_initialized(void *o);
size_t x_obuf_size(void *o);
int x_obuf_iovcnt(void *o);
void x_obuf_iov(void *o, int i, struct x_iov *v);
void *x_obuf_reserve(void *o, size_t n);
void *x_obuf_alloc(void *o, size_t n);
void *x_obuf_reserve_cb(void *o, size_t *n);
void *x_obuf_alloc_cb(void *o, size_t n);
size_t x_obuf_dup(void *o, const void *d, size_t n);
void x_obuf_svp(void *o, struct x_osvp *s);
void x_obuf_svp_reset(struct x_osvp *s);
void x_obuf_rollback(void *o, const struct x_osvp *s);
void *x_obuf_svp_ptr(void *o, const struct x_osvp *s);
#ifdef __cplusplus
}
#endif
#ifdef __cplusplus
extern "C" {
#endif
/* provided by the harness */
void *h_ext_alloc(void *allocator);
void h_ext_free(void *allocator, void *p);
size_t x_mal_sizeof(void);
void x_mal_create(void *a, size_t extent);
void x_mal_destroy(void *a);
int x_mal_reserve(void *a, int n);
int x_mal_reserved(void *a);
size_t x_matras_sizeof(void);
size_t x_mview_sizeof(void);
size_t x_mstats_sizeof(void);
void x_mstats_create(void *s);
void x_mstats_get(void *s, size_t *ext, size_t *rv);
void x_matras_create(void *m, unsigned block, void *a, void *stats);
void x_matras_destroy(void *m);
void x_matras_reset(void *m);
void *x_matras_alloc(void *m, uint32_t *id);
void *x_matras_alloc_range(void *m, uint32_t *id, uint32_t n);
void x_matras_dealloc(void *m);
void x_matras_dealloc_range(void *m, uint32_t n);
int x_matras_touch_reserve(void *m, int n);
void *x_matras_get(void *m, uint32_t id);
void *x_matras_view_get(void *m, void *v, uint32_t id);
size_t x_matras_extents(void *m);
void x_matras_head_view(void *v);
void x_matras_create_view(void *m, void *v);
void x_matras_destroy_view(void *m, void *v);
int x_matras_is_view(void *v);
void *x_matras_touch(void *m, uint32_t id);
int x_matras_needs_touch(void *m, uint32_t id);
void *x_matras_touch_no_check(void *m, uint32_t id);
#ifdef __cplusplus
}
#endif
#ifdef __cplusplus
extern "C" {
#endif
size_t x_static_size(void);
void *x_static_base(void);
void x_static_reset(void);
void *x_static_reserve(size_t n);
void *x_static_alloc(size_t n);
void *x_static_aligned_reserve(size_t n, size_t al);
void *x_static_aligned_alloc(size_t n, size_t al);
#ifdef __cplusplus
}
#endif
