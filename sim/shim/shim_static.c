/* Instrumented wrappers: static buffer. */
#include "static.h"
#include "shim.h"
size_t x_static_size(void) { return SMALL_STATIC_SIZE; }
void *x_static_base(void) { return static_storage_buffer; }
void x_static_reset(void) { static_reset(); }
void *x_static_reserve(size_t n) { return static_reserve(n); }
void *x_static_alloc(size_t n) { return static_alloc(n); }
void *x_static_aligned_reserve(size_t n, size_t al) { return static_aligned_reserve(n, al); }
void *x_static_aligned_alloc(size_t n, size_t al) { return static_aligned_alloc(n, al); }
