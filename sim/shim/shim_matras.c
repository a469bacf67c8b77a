/* Instrumented wrappers: matras. */
#include "matras.h"
#include "shim.h"
#define M ((struct matras *)m)
#define V ((struct matras_view *)v)
#define A ((struct matras_allocator *)a)
static void *ext_alloc(struct matras_allocator *a) { return h_ext_alloc(a); }
static void ext_free(struct matras_allocator *a, void *p) { h_ext_free(a, p); }
size_t x_mal_sizeof(void) { return sizeof(struct matras_allocator); }
void x_mal_create(void *a, size_t extent) { matras_allocator_create(A, extent, ext_alloc, ext_free); }
void x_mal_destroy(void *a) { matras_allocator_destroy(A); }
int x_mal_reserve(void *a, int n) { return matras_allocator_reserve(A, n); }
int x_mal_reserved(void *a) { return A->num_reserved_extents; }
size_t x_matras_sizeof(void) { return sizeof(struct matras); }
size_t x_mview_sizeof(void) { return sizeof(struct matras_view); }
size_t x_mstats_sizeof(void) { return sizeof(struct matras_stats); }
void x_mstats_create(void *s) { matras_stats_create((struct matras_stats *)s); }
void x_mstats_get(void *s, size_t *ext, size_t *rv)
{
	struct matras_stats *t = (struct matras_stats *)s;
	*ext = t->extent_count; *rv = t->read_view_extent_count;
}
void x_matras_create(void *m, unsigned block, void *a, void *stats) { matras_create(M, block, A, (struct matras_stats *)stats); }
void x_matras_destroy(void *m) { matras_destroy(M); }
void x_matras_reset(void *m) { matras_reset(M); }
void *x_matras_alloc(void *m, uint32_t *id) { return matras_alloc(M, id); }
void *x_matras_alloc_range(void *m, uint32_t *id, uint32_t n) { return matras_alloc_range(M, id, n); }
void x_matras_dealloc(void *m) { matras_dealloc(M); }
void x_matras_dealloc_range(void *m, uint32_t n) { matras_dealloc_range(M, n); }
int x_matras_touch_reserve(void *m, int n) { return matras_touch_reserve(M, n); }
void *x_matras_get(void *m, uint32_t id) { return matras_get(M, id); }
void *x_matras_view_get(void *m, void *v, uint32_t id) { return matras_view_get(M, V, id); }
size_t x_matras_extents(void *m) { return matras_extent_count(M); }
void x_matras_head_view(void *v) { matras_head_read_view(V); }
void x_matras_create_view(void *m, void *v) { matras_create_read_view(M, V); }
void x_matras_destroy_view(void *m, void *v) { matras_destroy_read_view(M, V); }
int x_matras_is_view(void *v) { return matras_is_read_view_created(V); }
void *x_matras_touch(void *m, uint32_t id) { return matras_touch(M, id); }
int x_matras_needs_touch(void *m, uint32_t id) { return matras_needs_touch(M, id); }
void *x_matras_touch_no_check(void *m, uint32_t id) { return matras_touch_no_check(M, id); }
