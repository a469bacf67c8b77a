/* Instrumented wrappers: input and output buffers, both flavours. */
#include "slab_cache.h"
#include "ibuf.h"
#include "obuf.h"
#include "shim.h"
#define B ((struct ibuf *)b)
size_t x_ibuf_sizeof(void) { return sizeof(struct ibuf); }
void x_ibuf_create(void *b, void *c, size_t cap) { ibuf_create(B, (struct slab_cache *)c, cap); }
void x_ibuf_destroy(void *b) { ibuf_destroy(B); }
void x_ibuf_reinit(void *b) { ibuf_reinit(B); }
void x_ibuf_reset(void *b) { ibuf_reset(B); }
void x_ibuf_shrink(void *b) { ibuf_shrink(B); }
size_t x_ibuf_used(void *b) { return ibuf_used(B); }
size_t x_ibuf_unused(void *b) { return ibuf_unused(B); }
size_t x_ibuf_capacity(void *b) { return ibuf_capacity(B); }
size_t x_ibuf_pos(void *b) { return ibuf_pos(B); }
void *x_ibuf_rpos(void *b) { return B->rpos; }
void *x_ibuf_wpos(void *b) { return B->wpos; }
void x_ibuf_advance(void *b, size_t n) { B->wpos += n; }
void *x_ibuf_reserve(void *b, size_t n) { return ibuf_reserve(B, n); }
void *x_ibuf_alloc(void *b, size_t n) { return ibuf_alloc(B, n); }
void *x_ibuf_reserve_cb(void *b, size_t *n) { return ibuf_reserve_cb(b, n); }
void *x_ibuf_alloc_cb(void *b, size_t n) { return ibuf_alloc_cb(b, n); }
void x_ibuf_discard(void *b, size_t n) { ibuf_discard(B, n); }
void x_ibuf_truncate(void *b, size_t used) { ibuf_truncate(B, used); }
void x_ibuf_consume(void *b, size_t n) { ibuf_consume(B, n); }
void x_ibuf_consume_before(void *b, const void *p) { ibuf_consume_before(B, p); }
#define O ((struct obuf *)o)
size_t x_obuf_sizeof(void) { return sizeof(struct obuf); }
int x_obuf_iov_max(void) { return SMALL_OBUF_IOV_MAX; }
int x_obuf_checked_max(void)
{
#ifdef ENABLE_ASAN
	return SMALL_OBUF_IOV_CHECKED_MAX;
#else
	return 0;
#endif
}
void x_obuf_create(void *o, void *c, size_t cap) { obuf_create(O, (struct slab_cache *)c, cap); }
void x_obuf_destroy(void *o) { obuf_destroy(O); }
void x_obuf_reset(void *o) { obuf_reset(O); }
int x_obuf_is_initialized(void *o) { return obuf_is_initialized(O); }
size_t x_obuf_size(void *o) { return obuf_size(O); }
int x_obuf_iovcnt(void *o) { return obuf_iovcnt(O); }
void x_obuf_iov(void *o, int i, struct x_iov *v) { v->p = O->iov[i].iov_base; v->n = O->iov[i].iov_len; }
void *x_obuf_reserve(void *o, size_t n) { return obuf_reserve(O, n); }
void *x_obuf_alloc(void *o, size_t n) { return obuf_alloc(O, n); }
void *x_obuf_reserve_cb(void *o, size_t *n) { return obuf_reserve_cb(o, n); }
void *x_obuf_alloc_cb(void *o, size_t n) { return obuf_alloc_cb(o, n); }
size_t x_obuf_dup(void *o, const void *d, size_t n) { return obuf_dup(O, d, n); }
void x_obuf_svp(void *o, struct x_osvp *s)
{
	struct obuf_svp v = obuf_create_svp(O);
	s->pos = v.pos; s->iov_len = v.iov_len; s->used = v.used;
}
void x_obuf_svp_reset(struct x_osvp *s)
{
	struct obuf_svp v;
	obuf_svp_reset(&v);
	s->pos = v.pos; s->iov_len = v.iov_len; s->used = v.used;
}
void x_obuf_rollback(void *o, const struct x_osvp *s)
{
	struct obuf_svp v;
	v.pos = s->pos; v.iov_len = s->iov_len; v.used = s->used;
	obuf_rollback_to_svp(O, &v);
}
void *x_obuf_svp_ptr(void *o, const struct x_osvp *s)
{
	struct obuf_svp v;
	v.pos = s->pos; v.iov_len = s->iov_len; v.used = s->used;
	return obuf_svp_to_ptr(O, &v);
}
