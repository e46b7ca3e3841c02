/* counts the bytes Python objects ask the allocator for (cumulative; nothing is subtracted on free) */
#include <stddef.h>
typedef struct { void *ctx; void *(*malloc)(void *, size_t); void *(*calloc)(void *, size_t, size_t); void *(*realloc)(void *, void *, size_t); void (*free)(void *, void *); } A;
extern void PyMem_GetAllocator(int, A *);
extern void PyMem_SetAllocator(int, A *);
static A old[3];
static unsigned long long total;
static void *m(void *c, size_t n) { A *o = c; total += n; return o->malloc(o->ctx, n); }
static void *k(void *c, size_t a, size_t b) { A *o = c; total += a * b; return o->calloc(o->ctx, a, b); }
static void *r(void *c, void *p, size_t n) { A *o = c; total += n; return o->realloc(o->ctx, p, n); }
static void f(void *c, void *p) { A *o = c; o->free(o->ctx, p); }
/* domains 1 and 2: PYMEM_DOMAIN_MEM and PYMEM_DOMAIN_OBJ */
void rv_start(void) { total = 0; for (int d = 1; d < 3; d++) { PyMem_GetAllocator(d, &old[d]); A n = { &old[d], m, k, r, f }; PyMem_SetAllocator(d, &n); } }
unsigned long long rv_stop(void) { for (int d = 1; d < 3; d++) PyMem_SetAllocator(d, &old[d]); return total; }
