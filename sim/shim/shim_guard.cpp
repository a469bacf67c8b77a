/* Instrumented wrappers: the scope guard of C++ callers, both flavours. */
#include <stdalign.h>
#include <stdint.h>
#include <stddef.h>
#include "slab_cache.h"
#include "region.h"
inline void *operator new(size_t, void *p, int) { return p; }
extern "C" size_t x_guard_sizeof(void) { return sizeof(RegionGuard); }
extern "C" void x_guard_open(void *g, void *r) { new (g, 0) RegionGuard((struct region *)r); }
extern "C" void x_guard_close(void *g) { ((RegionGuard *)g)->~RegionGuard(); }
