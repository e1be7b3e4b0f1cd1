/* Harness interface.  Under CBMC (__CPROVER__) every nondeterministic choice goes
 * through nd_*(): the value is stored in a variable called nd_rec_* so that a
 * counterexample trace lists the choices in order.  Compiled natively, the same
 * harness reads those choices back from a file and runs the real code on them. */
#ifndef VERIF_H
#define VERIF_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef VERIF_CBMC
static long long nd_rec_ll; static double nd_rec_double; static int nd_rec_int; static unsigned nd_rec_uint; static size_t nd_rec_size;
static unsigned char nd_rec_bool, nd_rec_uchar; static unsigned short nd_rec_ushort;
static inline long long nd_ll(void) { long long v; nd_rec_ll = v; return v; }
static inline double nd_double(void) { double v; nd_rec_double = v; return v; }
static inline int nd_int(void) { int v; nd_rec_int = v; return v; }
static inline unsigned nd_uint(void) { unsigned v; nd_rec_uint = v; return v; }
static inline size_t nd_size(void) { size_t v; nd_rec_size = v; return v; }
static inline bool nd_bool(void) { unsigned char v; nd_rec_bool = v & 1; return v & 1; }
static inline unsigned char nd_uchar(void) { unsigned char v; nd_rec_uchar = v; return v; }
static inline unsigned short nd_ushort(void) { unsigned short v; nd_rec_ushort = v; return v; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, what) __CPROVER_assert((c), "P: " what)
#define COVER(c, name) __CPROVER_assert(!(c), "COVER: " name)
#define UNREACHABLE_STOP() __CPROVER_assume(0)
#else
/* native replay */
long long nd_ll(void);
double nd_double(void);
#define nd_int() ((int)nd_ll())
#define nd_uint() ((unsigned)nd_ll())
#define nd_size() ((size_t)nd_ll())
#define nd_bool() ((bool)(nd_ll() & 1))
#define nd_uchar() ((unsigned char)nd_ll())
#define nd_ushort() ((unsigned short)nd_ll())
void replay_diverged(const char *what, const char *file, int line);
void replay_violation(const char *what, const char *file, int line);
void replay_stop(void);
#define ASSUME(c) do { if (!(c)) replay_diverged(#c, __FILE__, __LINE__); } while(0)
#define CHECK(c, what) do { if (!(c)) replay_violation(what, __FILE__, __LINE__); } while(0)
#define COVER(c, name) ((void)0)
#define UNREACHABLE_STOP() replay_stop()
#define __CPROVER_requires(...)
#define __CPROVER_ensures(...)
#define __CPROVER_assigns(...)
#endif

#define IMPL(a, b) (!(a) || (b))
#define IFF(a, b) (!!(a) == !!(b))

/* nondeterministic choice in [lo,hi] */
static inline long long nd_range(long long lo, long long hi) {
    long long r = nd_ll();
    ASSUME(r >= lo && r <= hi);
    return r;
}
#endif
