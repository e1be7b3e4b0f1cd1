/* Contracts of the CPU mask utilities (support/mask_utils.c), whole masks of up to 1024 CPUs. */
#include "verif.h"
#ifdef VERIF_CBMC
#include <sched.h>
/* compare whole words: masks are arrays of unsigned long */
static int verif_memcmp(const void *a, const void *b, size_t n) {
    const cpu_set_t *x = a, *y = b; int r = 0;
    for (size_t i = 0; i < n / 8; ++i) if (x->__bits[i] != y->__bits[i]) r = 1;
    return r;
}
#define __builtin_memcmp verif_memcmp
#endif
#include "mask_utils.c"
#include <stdarg.h>
#ifdef VERIF_CBMC
/* at least a whole cpu_set_t: cbmc checks the extent of the member array __bits, not of the word used */
cpu_set_t *__sched_cpualloc(size_t n) { return malloc(sizeof(cpu_set_t)); }
void __sched_cpufree(cpu_set_t *s) { free(s); }
#endif
#ifndef SYSN
#define SYSN 64
#endif
#define W ((SYSN + 63) / 64)
#define BIT(m, c) (((m).__bits[(c) / 64] >> ((c) % 64)) & 1)
static void nd_set(cpu_set_t *m) { for (int i = 0; i < 16; ++i) { m->__bits[i] = 0; if (i < W) m->__bits[i] = (unsigned long)nd_ll(); } }
static void nd_full(cpu_set_t *m) { for (int i = 0; i < 16; ++i) m->__bits[i] = (unsigned long)nd_ll(); }
static int popc(unsigned long x) { int r = 0; for (int i = 0; i < 64; ++i) r += (x >> i) & 1; return r; }

#ifdef ALG
static void op(void) {
    mu_testing_set_sys(SYSN, 1, 1);
    CHECK(mu_get_system_size() == SYSN && mu_get_num_cores() == 1, "system size");
    cpu_set_t a, b, r, r0; nd_set(&a); nd_set(&b); nd_full(&r); r0 = r;
    /* an arbitrary CPU stands for all of them */
    int c = nd_int(); ASSUME(c >= 0 && c < 64 * W);
    int which = nd_int();
    bool ba = BIT(a, c), bb = BIT(b, c);
    bool sub = true, eq = true, inter = false, sup = true;
    for (int i = 0; i < W; ++i) { sub = sub && !(a.__bits[i] & ~b.__bits[i]); sup = sup && !(b.__bits[i] & ~a.__bits[i]); eq = eq && a.__bits[i] == b.__bits[i]; inter = inter || (a.__bits[i] & b.__bits[i]); }
    
#if ALG == 0
        if (which == 0) mu_and(&r, &a, &b), ba = ba && bb; else if (which == 1) mu_or(&r, &a, &b), ba = ba || bb; else if (which == 2) mu_xor(&r, &a, &b), ba = ba != bb;
                else if (which == 3) mu_substract(&r, &a, &b), ba = ba && !bb; else mu_zero(&r), ba = false;
            CHECK(BIT(r, c) == ba, "intersection, union, difference and symmetric difference hold exactly the CPUs they should");
            for (int i = 0; i < 16; ++i) if (i >= W) CHECK(r.__bits[i] == r0.__bits[i], "nothing is written beyond the machine");
            COVER(which == 3 && ba, "subtract");
#elif ALG == 1
        /* in place */
            r = a;
            if (which == 0) mu_and(&r, &r, &b), ba = ba && bb; else if (which == 1) mu_or(&r, &r, &b), ba = ba || bb; else if (which == 2) mu_xor(&r, &r, &b), ba = ba != bb;
            else mu_substract(&r, &r, &b), ba = ba && !bb;
            CHECK(BIT(r, c) == ba, "set operations in place hold exactly the CPUs they should");
            COVER(which == 3 && ba, "subtract");
#elif ALG == 2
       
            CHECK(mu_equal(&a, &b) == eq, "two masks are equal when they hold the same CPUs");
            CHECK(mu_is_subset(&a, &b) == sub && mu_is_superset(&a, &b) == sup, "subset and superset");
            CHECK(mu_is_proper_subset(&a, &b) == (sub && !eq) && mu_is_proper_superset(&a, &b) == (sup && !eq), "proper subset and superset");
            CHECK(mu_intersects(&a, &b) == inter, "masks intersect when they share a CPU");
            COVER(sub && !eq, "proper"); COVER(!inter, "disjoint");
#elif ALG == 3
        {
            int n = 0; for (int i = 0; i < W; ++i) n += popc(a.__bits[i]);
            CHECK(mu_count(&a) == n, "count is the number of CPUs");
            int s = mu_get_single_cpu(&a), f = mu_get_first_cpu(&a), l = mu_get_last_cpu(&a);
            CHECK(IFF(f == -1, n == 0) && IFF(l == -1, n == 0), "first and last exist unless the mask is empty");
            if (n > 0) { CHECK(f >= 0 && f < 64*W && BIT(a, f) && l >= 0 && l < 64*W && BIT(a, l), "first and last are in the mask"); if (ba) CHECK(f <= c && c <= l, "no CPU before first or after last"); }
            CHECK(s == (n == 1 ? f : -1), "the single CPU of a mask with one CPU");
            COVER(n == 1, "one"); COVER(n == 0, "none"); }
#elif ALG == 4
        {
            int p = nd_int(); ASSUME(p >= -3 && p <= 64 * W + 70);
            int x = mu_get_next_cpu(&a, p), y = mu_get_next_unset(&a, p);
            CHECK(x == -1 || (x > p && x < 64*W && BIT(a, x)), "the next CPU is a later one of the mask");
            CHECK(y == -1 || (y > p && y < 64*W && !BIT(a, y)), "the next hole is later and not in the mask");
            if (p >= -1 && c > p) { if (ba) CHECK(x != -1 && x <= c, "no CPU of the mask is skipped"); else CHECK(y != -1 && y <= c, "no hole is skipped"); }
            if (p < -1) CHECK(x == -1 && y == -1, "no CPU after an invalid one");
            COVER(x == -1 && p == 5, "none"); COVER(W == 1 || (x > 63 && p == 1), "across words"); }
#endif
}
#endif

#ifdef TOPO
/* machines: CPUs per core and node layouts, contiguous or not, with and without gaps */
static cpu_set_t sysm, cores[8], nodes[4];
static int ncores, nnodes, ncpus;
static void mk(int t) {
    static const struct { unsigned long sys; int nc; unsigned long c[8]; int nn; unsigned long n[4]; } T[] = {
        { 0xffUL, 8, {1,2,4,8,16,32,64,128}, 2, {0x0f, 0xf0} },
        { 0xffUL, 4, {3,12,48,192}, 2, {0x0f, 0xf0} },
        { 0xffUL, 4, {0x11,0x22,0x44,0x88}, 2, {0x33, 0xcc} },
        { 0x1fe3UL, 5, {3,0x60,0x180,0x600,0x1800}, 2, {0x7e3, 0x1800} },
        { 0x7fUL, 5, {1,6,8,0x30,0x40}, 1, {0x7f} },
    };
    sysm.__bits[0] = T[t].sys; ncores = T[t].nc; nnodes = T[t].nn;
    for (int i = 0; i < 8; ++i) cores[i].__bits[0] = T[t].c[i];
    for (int i = 0; i < 4; ++i) nodes[i].__bits[0] = T[t].n[i];
    ncpus = t == 3 ? 13 : t == 4 ? 7 : 8;
    mu_testing_set_sys_masks(&sysm, cores, ncores, nodes, nnodes);
}
static int core_of(int c) { int r = -1; for (int i = 0; i < ncores; ++i) if (c >= 0 && c < 64 && (cores[i].__bits[0] >> c & 1)) r = i; return r; }
static void op(void) {
    mk(TOPO);
    cpu_set_t m, r; CPU_ZERO(&m); m.__bits[0] = (unsigned long)nd_ll(); ASSUME((m.__bits[0] & ~sysm.__bits[0]) == 0);
    unsigned long mm = m.__bits[0];
    nd_full(&r);
    int c = nd_int(); ASSUME(c >= -3 && c <= ncpus + 3);
    int k = nd_int(); ASSUME(k >= -3 && k <= ncores + 3);
    unsigned long ni = 0, ns = 0, ci = 0, cs = 0; int complete = 0, last = -1;
    for (int i = 0; i < nnodes; ++i) { unsigned long n = nodes[i].__bits[0]; if (n & mm) ni |= n; if (!(n & ~mm)) ns |= n; }
    for (int i = 0; i < ncores; ++i) { unsigned long n = cores[i].__bits[0]; if (n & mm) ci |= n; if (!(n & ~mm)) cs |= n, ++complete, last = i; }
    enum { which = WHICH };
    int tab[16]; for (int i = 0; i < 16; ++i) tab[i] = core_of(i);
    if (which == 0) {
        CHECK(mu_get_system_size() == ncpus && mu_get_num_cores() == ncores, "system size and number of cores");
        mu_get_system_mask(&r); CHECK(r.__bits[0] == sysm.__bits[0] && r.__bits[1] == 0 && r.__bits[15] == 0, "system mask");
        int h = 0; for (int i = 0; i < 64; ++i) h += cores[0].__bits[0] >> i & 1;
        CHECK(mu_get_system_hwthreads_per_core() == h && mu_system_has_smt() == (h > 1), "hardware threads per core");
    } else if (which == 1) {
        CHECK(mu_get_core_id(c) == core_of(c), "core of a CPU, none for a CPU that does not exist");
        const mu_cpuset_t *p = mu_get_core_mask(c);
        CHECK(IFF(p != NULL, core_of(c) >= 0), "a CPU has a core exactly if it exists");
        if (p) { unsigned long want = 0; for (int i = 0; i < ncores; ++i) if (cores[i].__bits[0] >> c & 1) want = cores[i].__bits[0];
            CHECK(p->set->__bits[0] == want, "mask of the core of a CPU"); 
            CHECK((want >> p->first_cpuid & 1) && (want & ((1UL << p->first_cpuid) - 1)) == 0 && (want >> p->last_cpuid) == 1 && p->count == (unsigned)popc(want), "bounds of the core mask"); }
    } else if (which == 2) {
        const mu_cpuset_t *p = mu_get_core_mask_by_coreid(k);
        CHECK(IFF(p != NULL, k >= 0 && k < ncores), "a core mask exists exactly for the cores of the machine");
        for (int i = 0; i < ncores; ++i) if (i == k) CHECK(p->set->__bits[0] == cores[i].__bits[0], "mask of a core");
    } else if (which == 3) { mu_get_nodes_intersecting_with_cpuset(&r, &m); CHECK(r.__bits[0] == ni && r.__bits[1] == 0 && r.__bits[15] == 0, "nodes touched by a mask"); }
    else if (which == 4) { mu_get_nodes_subset_of_cpuset(&r, &m); CHECK(r.__bits[0] == ns && r.__bits[1] == 0 && r.__bits[15] == 0, "nodes inside a mask"); }
    else if (which == 5) { mu_get_cores_intersecting_with_cpuset(&r, &m); CHECK(r.__bits[0] == ci && r.__bits[1] == 0 && r.__bits[15] == 0, "cores touched by a mask"); }
    else if (which == 6) { mu_get_cores_subset_of_cpuset(&r, &m); CHECK(r.__bits[0] == cs && r.__bits[1] == 0 && r.__bits[15] == 0, "cores inside a mask"); }
    else if (which == 7) { CHECK(mu_count_cores(&m) == complete, "number of whole cores"); CHECK(mu_get_last_coreid(&m) == last, "last whole core"); }
    else if (which == 8) {
        int l = mu_take_last_coreid(&m); CHECK(l == last, "the last whole core is taken");
        unsigned long lm = 0; for (int i = 0; i < ncores; ++i) if (i == last) lm = cores[i].__bits[0];
        CHECK(m.__bits[0] == (mm & ~lm), "taking a core removes its CPUs only");
    } else if (which == 9) {
        ASSUME(k >= 0 && k < ncores);
        unsigned long km = 0; for (int i = 0; i < ncores; ++i) if (i == k) km = cores[i].__bits[0];
        if (nd_bool()) { mu_set_core(&m, k); CHECK(m.__bits[0] == (mm | km), "setting a core adds its CPUs only"); }
        else { mu_unset_core(&m, k); CHECK(m.__bits[0] == (mm & ~km), "unsetting a core removes its CPUs only"); }
    } else {
        int x = mu_get_cpu_next_core(&m, c);
        if (c < -1) CHECK(x == -1, "no next core after an invalid CPU");
        else {
            int pc = core_of(c), want = -1;
            for (int i = 15; i >= 0; --i) if (i > c && (mm >> i & 1) && tab[i] > pc) want = i;
            CHECK(x == want, "the first CPU of the mask in a later core");
        }
    }
#if WHICH == 1
    COVER(core_of(c) >= 0, "core");
#elif WHICH == 10
    COVER(c == 2, "next core");
#elif WHICH == 6 && TOPO >= 1 && TOPO <= 3
    COVER(cs != 0 && cs != mm, "subset");
#endif
}
#endif

#ifdef CMP
static cpu_set_t sysm, cores[8], nodes[2];
static int ncores;
static int core_of(int c) { int r = -1; for (int i = 0; i < ncores; ++i) if (cores[i].__bits[0] >> c & 1) r = i; return r; }
static bool before(int a, int b) { return core_of(a) != core_of(b) ? core_of(a) < core_of(b) : a < b; }
static void op(void) {
    static const unsigned long C[3][8] = { {1,2,4,8,16,32,64,128}, {3,12,48,192}, {0x11,0x22,0x44,0x88} };
    ncores = CMP == 0 ? 8 : 4;
    sysm.__bits[0] = 0xff; for (int i = 0; i < 8; ++i) cores[i].__bits[0] = C[CMP][i];
    nodes[0].__bits[0] = 0x0f; nodes[1].__bits[0] = 0xf0;
    mu_testing_set_sys_masks(&sysm, cores, ncores, nodes, 2);
    cpu_set_t aff[3]; for (int k = 0; k < 3; ++k) CPU_ZERO(&aff[k]);
    aff[0].__bits[0] = nd_uchar(); aff[1].__bits[0] = nd_uchar();
    int a = nd_int(), b = nd_int(), c = nd_int();
    ASSUME(a >= 0 && a < 8 && b >= 0 && b < 8 && c >= 0 && c < 8);
    unsigned long own = aff[0].__bits[0];
    cpuid_t pa = a, pb = b, pc = c;
    int ab, ba, bc, ac;
#ifdef AFF
    ASSUME(own != 0 && (own & ~aff[1].__bits[0]) == 0);
    ab = mu_cmp_cpuids_by_affinity(&pa, &pb, aff); ba = mu_cmp_cpuids_by_affinity(&pb, &pa, aff); bc = mu_cmp_cpuids_by_affinity(&pb, &pc, aff); ac = mu_cmp_cpuids_by_affinity(&pa, &pc, aff);
    unsigned long near = aff[1].__bits[0];
#else
    ASSUME(own != 0);
    ab = mu_cmp_cpuids_by_ownership(&pa, &pb, &aff[0]); ba = mu_cmp_cpuids_by_ownership(&pb, &pa, &aff[0]); bc = mu_cmp_cpuids_by_ownership(&pb, &pc, &aff[0]); ac = mu_cmp_cpuids_by_ownership(&pa, &pc, &aff[0]);
    unsigned long near = 0xff;
#endif
    CHECK(IFF(ab == 0, a == b), "two different CPUs are never equal in the order");
    CHECK(IFF(ab < 0, ba > 0), "the order is antisymmetric");
    CHECK(IMPL(ab < 0 && bc < 0, ac < 0), "the order is transitive");
    bool oa = own >> a & 1, ob = own >> b & 1, na = near >> a & 1, nb = near >> b & 1;
    if (oa && !ob) CHECK(ab < 0, "owned CPUs go first");
    if (na && !nb) CHECK(ab < 0, "CPUs that are near go before the others");
    if (oa && ob) CHECK(IFF(ab < 0, before(a, b)), "owned CPUs go in ascending order");
    if (!na && !nb) CHECK(IFF(ab < 0, before(a, b)), "far CPUs go in ascending order");
    int first = 0; for (int i = 7; i >= 0; --i) if (own >> i & 1) first = core_of(i);
    if (!oa && !ob && na && nb) {
        bool la = core_of(a) < first, lb = core_of(b) < first;
        CHECK(IFF(ab < 0, la != lb ? lb : before(a, b)), "other CPUs go in ascending order from the first owned one, wrapping around");
    }
    COVER(ab < 0 && !oa && !ob && a > b, "wrap"); COVER(oa && ob && a != b, "both owned");
}
#endif
int main(void) { op(); return 0; }
