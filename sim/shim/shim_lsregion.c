#include <stdalign.h>
/* Instrumented wrappers: log-structured region, both flavours. */
#include "slab_arena.h"
#include "lsregion.h"
#include "shim.h"
#define L ((struct lsregion *)l)
size_t x_ls_sizeof(void) { return sizeof(struct lsregion); }
void x_ls_create(void *l, void *arena) { lsregion_create(L, (struct slab_arena *)arena); }
void x_ls_destroy(void *l) { lsregion_destroy(L); }
void *x_ls_alloc(void *l, size_t n, int64_t id) { return lsregion_alloc(L, n, id); }
void *x_ls_reserve(void *l, size_t n) { return lsregion_reserve(L, n); }
void *x_ls_aligned_alloc(void *l, size_t n, size_t al, int64_t id) { return lsregion_aligned_alloc(L, n, al, id); }
void *x_ls_aligned_reserve(void *l, size_t n, size_t al)
{
#ifdef ENABLE_ASAN
	return lsregion_aligned_reserve(L, n, al);
#else
	void *unaligned;
	return lsregion_aligned_reserve(L, n, al, &unaligned);
#endif
}
struct aligned_object { char c[100]; } __attribute__((aligned(32)));
void *x_ls_alloc_object(void *l, int64_t id) { return lsregion_alloc_object(L, id, struct aligned_object); }
void x_ls_gc(void *l, int64_t id) { lsregion_gc(L, id); }
size_t x_ls_used(void *l) { return lsregion_used(L); }
size_t x_ls_total(void *l) { return lsregion_total(L); }
int64_t x_ls_no_id(void) { return LSLAB_NOT_USED_ID; }
void x_svp_create(struct x_svp *s)
{
	struct lsregion_svp v;
	lsregion_svp_create(&v);
	s->slab_id = v.slab_id; s->pos = v.pos;
}
_Static_assert(sizeof(struct x_iov) == sizeof(struct iovec), "x_iov");
int64_t x_ls_to_iovec(void *l, struct x_iov *out, int *cnt, struct x_svp *s)
{
	struct lsregion_svp p;
	p.slab_id = s->slab_id; p.pos = s->pos;
	int64_t r = lsregion_to_iovec(L, (struct iovec *)out, cnt, &p);
	s->slab_id = p.slab_id; s->pos = p.pos;
	return r;
}
