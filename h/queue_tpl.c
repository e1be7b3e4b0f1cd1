/* Contracts of the fixed-size request queue (support/queue_template.h), over its abstract view: a FIFO list.
 * Every state (any rotation, any length, any content) is built with the queue's own operations and
 * observed with them, so the internal layout is free to change. */
#include "verif.h"
#include "support/debug.h"
#include <sys/types.h>
#ifndef QSZ
#define QSZ 8
#endif
typedef struct { pid_t pid; unsigned howmany; } req_t;
#ifdef STRUCT
#define QUEUE_T req_t
#define QUEUE_KEY_T pid_t
#define ITEM req_t
#define FN(x) queue_req_t_##x
#define KEY(i) ((i).pid)
#define SAME(a, b) ((a).pid == (b).pid && (a).howmany == (b).howmany)
static ITEM nd_item(void) { req_t r; r.pid = nd_int(); r.howmany = nd_uint(); return r; }
#define Q queue_req_t
#else
#define QUEUE_T pid_t
#define QUEUE_KEY_T pid_t
#define ITEM pid_t
#define FN(x) queue_pid_t_##x
#define KEY(i) (i)
#define SAME(a, b) ((a) == (b))
static ITEM nd_item(void) { return nd_int(); }
#define Q queue_pid_t
#endif
#define QUEUE_SIZE QSZ
#include "support/queue_template.h"
#ifdef VERIF_CBMC
/* contract of memcmp, on keys */
int memcmp(const void *a, const void *b, size_t n) { CHECK(n == sizeof(pid_t), "keys are compared whole"); return *(const pid_t *)a == *(const pid_t *)b ? 0 : 1; }
#endif
static Q q;
static ITEM v[QSZ + 1], w[QSZ + 1];
static int n, m;
static void drain(void) {
    m = 0;
    for (int i = 0; i < QSZ; ++i) { ITEM x; if (FN(dequeue)(&q, &x) == 0) { w[i] = x; ++m; } }
    CHECK(FN(empty)(&q) && FN(size)(&q) == 0, "a queue holds fewer elements than its capacity");
}
static void body(int f) {
    FN(init)(&q);
    CHECK(FN(empty)(&q) && FN(size)(&q) == 0 && FN(front)(&q) == NULL && FN(back)(&q) == NULL, "a new queue is empty");
    for (int i = 0; i < QSZ; ++i) if (i < f) { ITEM a = nd_item(), b; CHECK(FN(enqueue)(&q, a) == 0, "queueing in an empty queue succeeds"); CHECK(FN(dequeue)(&q, &b) == 0 && SAME(a, b), "what was queued comes out"); }
    for (int i = 0; i < QSZ; ++i) if (i < n) { v[i] = nd_item(); CHECK(FN(enqueue)(&q, v[i]) == 0, "queueing succeeds while there is room"); }
    CHECK(FN(size)(&q) == (size_t)n && FN(empty)(&q) == (n == 0), "the queue counts its elements");
    
#if OP == 0          /* enqueue */
        ITEM x = nd_item();
        int r = FN(enqueue)(&q, x);
        CHECK(IFF(r == 0, n < QSZ - 1), "queueing fails only when the queue is full");
        drain();
        CHECK(m == n + (r == 0), "queueing adds one element");
        for (int i = 0; i < QSZ; ++i) if (i < n) CHECK(SAME(w[i], v[i]), "queueing keeps the order of what waits");
        if (r == 0) for (int i = 0; i < QSZ; ++i) if (i == n) CHECK(SAME(w[i], x), "a new element goes last");
        COVER(r != 0, "full"); COVER(r == 0 && n == QSZ - 2, "last");
    #endif
#if OP == 1   /* dequeue, front, back, clear */
        ITEM x, *fr = FN(front)(&q), *ba = FN(back)(&q);
        CHECK(IFF(fr != NULL, n > 0) && IFF(ba != NULL, n > 0), "front and back exist unless the queue is empty");
        if (fr) CHECK(SAME(*fr, v[0]), "front is the oldest element");
        for (int i = 0; i < QSZ; ++i) if (i == n - 1) CHECK(SAME(*ba, v[i]), "back is the newest element");
        if (nd_bool()) { FN(clear)(&q); CHECK(FN(empty)(&q) && FN(size)(&q) == 0, "a cleared queue is empty"); drain(); CHECK(m == 0, "a cleared queue is empty"); COVER(n == 3, "clear"); }
        else {
            int r = FN(dequeue)(&q, &x);
            CHECK(IFF(r == 0, n > 0), "taking fails only from an empty queue");
            if (r == 0) CHECK(SAME(x, v[0]), "the oldest element is taken first");
            drain();
            CHECK(m == n - (r == 0), "taking removes one element");
            for (int i = 0; i + 1 < QSZ; ++i) if (i < m) CHECK(SAME(w[i], v[i + 1]), "taking keeps the order of the rest");
            COVER(r == 0 && n > 3, "long");
        }
    #endif
#if OP == 2   /* traversal visits every element in order */
        int k = 0;
        for (ITEM *it = FN(front)(&q); it != NULL; it = FN(next)(&q, it)) {
            CHECK(k < n, "a traversal visits each element once");
            for (int i = 0; i < QSZ; ++i) if (i == k) CHECK(SAME(*it, v[i]), "a traversal goes in order");
            ++k;
            if (k > n) break;
        }
        CHECK(k == n, "a traversal visits every element");
        drain(); CHECK(m == n, "a traversal changes nothing");
        COVER(n == QSZ - 1, "full"); COVER(n == 0, "empty");
    #endif
#if OP == 3   /* delete the k-th element */
        int k = nd_int(); ASSUME(k >= 0 && k < n);
        ITEM *it = FN(front)(&q);
        for (int i = 0; i < QSZ; ++i) if (i < k) it = FN(next)(&q, it);
        FN(delete)(&q, it);
        CHECK(FN(size)(&q) == (size_t)n - 1, "deleting removes one element");
        drain(); CHECK(m == n - 1, "deleting removes one element");
        for (int i = 0; i < QSZ; ++i) if (i < m) CHECK(SAME(w[i], v[i + (i >= k)]), "deleting keeps the other elements in order");
        COVER(n == QSZ - 1 && k == 2, "delete inside");
    #endif
#if OP == 4   /* remove by key */
        pid_t key = nd_int();
        FN(remove)(&q, key);
        drain();
        int k = 0;
        for (int i = 0; i < QSZ; ++i) if (i < n && KEY(v[i]) != key) {
            CHECK(k < m, "only matching elements are removed");
            for (int z = 0; z <= i; ++z) if (z == k) CHECK(SAME(w[z], v[i]), "the other elements keep their order");
            ++k; }
        CHECK(k == m, "every matching element is removed");
        COVER(n == QSZ - 1 && m == 2, "remove many");
#endif
#if OP == 5
                /* search and replace by key */
        ITEM x = nd_item(); pid_t key = KEY(x);
        ITEM *s = FN(search)(&q, key);
        int first = -1;
        for (int i = QSZ - 1; i >= 0; --i) if (i < n && KEY(v[i]) == key) first = i;
        CHECK(IFF(s != NULL, first >= 0), "search finds an element with the key if there is one");
        for (int i = 0; i < QSZ; ++i) if (i == first) CHECK(SAME(*s, v[i]), "search finds the oldest element with the key");
        FN(replace)(&q, x);
        drain(); CHECK(m == n, "replacing changes no other element");
        for (int i = 0; i < QSZ; ++i) if (i < n) CHECK(i == first ? SAME(w[i], x) : SAME(w[i], v[i]), "replace rewrites the oldest element with the key only");
        COVER(first > 2, "found"); COVER(first == -1 && n == 3, "not found");
#endif
}
int main(void) {
    /* case split: every rotation and every length */
    int f = nd_int(); ASSUME(f >= 0 && f < QSZ);
    int l = nd_int(); ASSUME(l >= 0 && l < QSZ);
#ifdef F
    ASSUME(f == F);
    f = F;
    for (int b = 0; b < QSZ; ++b) if (l == b) { n = b; body(F); return 0; }
#else
    for (int a = 0; a < QSZ; ++a) if (f == a) for (int b = 0; b < QSZ; ++b) if (l == b) { n = b; body(a); return 0; }
#endif
    return 0;
}
