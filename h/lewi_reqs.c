/* Contracts of the pending-request list of LeWI (support/queues.c): a map from process to number of CPUs. */
#include "verif.h"
#include "queues.c"
#ifndef N
#define N 4
#endif
#ifndef MAXH
#define MAXH 0x1000000
#endif
#ifndef NPIDS
#define NPIDS (N+1)
#endif
static queue_lewi_reqs_t q;
static unsigned a[NPIDS + 1];   /* abstract view: amount requested per pid */
/* contract of qsort: the array ends up sorted by the comparator (stable insertion sort) */
#ifdef VERIF_CBMC
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    lewi_request_t *r = base;
    for (int i = 1; i < N; ++i) if ((size_t)i < n)
        for (int j = i; j > 0; --j) if (cmp(&r[j-1], &r[j]) > 0) { lewi_request_t t = r[j]; r[j] = r[j-1]; r[j-1] = t; }
}
#endif
static void view(const char *when) {
    (void)when;
    unsigned sum = 0;
    for (int p = 1; p <= NPIDS; ++p) { CHECK(queue_lewi_reqs_get(&q, p) == a[p], "every process is registered with the amount it asked for"); if (a[p]) ++sum; }
    CHECK(queue_lewi_reqs_size(&q) == sum, "the list holds one entry per process that waits");
}
static void body(int n) {
    queue_lewi_reqs_init(&q);
    CHECK(queue_lewi_reqs_size(&q) == 0, "a new list is empty");
    /* any amounts; processes are told apart by id only, so the i-th one to ask is called i+1 */
    for (int i = 0; i < n; ++i) { unsigned h = nd_uint(); ASSUME(h >= 1 && h <= MAXH); a[i+1] = h; CHECK(queue_lewi_reqs_push(&q, i+1, h) == DLB_SUCCESS, "a new request is accepted"); }
    view("built");
#if OP == 0
        int p = nd_int(); ASSUME(p >= 0 && p <= NPIDS);
        unsigned h = nd_uint(); ASSUME(h <= MAXH);
        for (int k = 0; k <= NPIDS; ++k) if (k == p) {
            int r = queue_lewi_reqs_push(&q, k, h);
            if (k == 0) CHECK(r == DLB_NOUPDT, "no request without process");
            else { CHECK(r == DLB_SUCCESS, "a request is accepted"); a[k] = h == 0 ? 0 : a[k] + h; }
        }
        view("push"); COVER(h == 0 && p == 2, "reset"); COVER(h > 1 && p == 2, "add");
#elif OP == 1
        int p = nd_int(); ASSUME(p >= 0 && p <= NPIDS);
        for (int k = 0; k <= NPIDS; ++k) if (k == p) { unsigned r = queue_lewi_reqs_remove(&q, k); CHECK(r == (k ? a[k] : 0), "removing tells the amount that was waiting"); if (k) a[k] = 0; }
        view("remove"); COVER(n == N && p == 2, "removed");
#else
        unsigned c = nd_uint(), maxr = nd_uint(), nr; ASSUME(c <= MAXH && maxr <= N);
        lewi_request_t out[N];
        unsigned left = queue_lewi_reqs_pop_ncpus(&q, c, out, &nr, maxr);
        CHECK(nr <= maxr && nr <= (unsigned)n, "no more grants than processes or room");
        unsigned sum = 0; bool all = true;
        unsigned g[NPIDS + 1] = {0}, o[NPIDS + 1];
        for (int k = 1; k <= NPIDS; ++k) o[k] = a[k];
        for (int i = 0; i < N; ++i) if (i < (int)nr) {
            CHECK(out[i].pid >= 1 && out[i].pid <= NPIDS && out[i].howmany > 0, "a grant names a process that waits");
            sum += out[i].howmany;
            for (int k = 1; k <= NPIDS; ++k) if (k == out[i].pid) { CHECK(g[k] == 0 && out[i].howmany <= a[k], "a process gets at most what it asked for, once"); g[k] = out[i].howmany; a[k] -= g[k]; }
        }
        for (int k = 1; k <= NPIDS; ++k) if (a[k]) all = false;
        CHECK(sum + left == c, "CPUs are neither lost nor invented");
        if (maxr >= (unsigned)n) {
            CHECK(left == 0 || all, "CPUs are left over only when every request is served");
            for (int k = 1; k <= NPIDS; ++k) for (int z = 1; z <= NPIDS; ++z) if (a[k] > 0 && o[z] > 0) CHECK(g[z] <= g[k] + 1, "CPUs are shared out evenly");
        }
        view("pop"); COVER(left > 0 && n == N, "left"); COVER(nr == N && left == 0, "all"); COVER(maxr == 1 && n > 1, "room");
#endif
}
int main(void) {
    int n = nd_int(); ASSUME(n >= 0 && n <= N);
    for (int k = 0; k <= N; ++k) if (n == k) { body(k); return 0; }
    return 0;
}
