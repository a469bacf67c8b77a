/* one-shot hook around the atomic operations of this thread */
static __thread void (*demo_hook)(void); static __thread int demo_skip;
void demo_before(void *obj) { (void)obj; if (demo_hook && demo_skip-- <= 0) { void (*h)(void) = demo_hook; demo_hook = 0; h(); } }
void demo_after(void *obj) { (void)obj; }
