/* intrinsics of the abstract interpreter (engine/xkai.cpp) */
#ifndef XK_H
#define XK_H
#include <stddef.h>
#include <stdint.h>
void xk_assert(int cond, const char *id);           /* obligation "KIND:description" */
void xk_assume(int cond);
void xk_reach(const char *id);                      /* coverage: this point is analysed */
int xk_choice(int n);                               /* one of 0..n-1, analysed separately */
unsigned char xk_range8(unsigned char lo, unsigned char hi);
unsigned int xk_range32(unsigned int lo, unsigned int hi);
size_t xk_rangesz(size_t lo, size_t hi);
void *xk_in(size_t n, const char *name);            /* fresh read-only buffer of n bytes */
void *xk_out(size_t n, const char *name);           /* fresh writable buffer of n bytes, contents unknown */
void *xk_mem(size_t n, const char *name);           /* fresh object whose fields are tracked */
void xk_read(const void *p, size_t n);              /* the callee reads [p, p+n) */
void xk_write(void *p, size_t n);                   /* the callee overwrites [p, p+n) */
void xk_havoc(void *p, size_t n);
int xk_same(const void *p, const void *q);          /* same object */
int xk_known_eq(size_t a, size_t b);                  /* provably equal here (no case split) */
int xk_isnull(const void *p);
int xk_filled(const void *p, int byte, size_t n);   /* [p, p+n) is known to hold `byte` */
int xk_equal(const void *p, const void *q, size_t n);  /* known: compared and equal over the whole range */
int xk_differ(const void *p, const void *q, size_t n); /* known: compared inside the range and different */
void xk_watch(const void *p);                       /* start watching an object for writes */
int xk_untouched(const void *p);
void xk_dump(const char *);
#define XK_MAXLEN ((size_t)1 << (sizeof(size_t) == 8 ? 58 : 30))   /* objects are smaller than the address space */
#endif
