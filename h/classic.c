/* Classic LeWI (lewi.c over comm_lend_light.c): CPUs are only counted. Other processes change the shared counter at any time. */
#include "verif.h"
/* ENV: any number of changes by other processes before each access to the shared counter (rule: shdata->idleCpus becomes CELL(shdata->idleCpus)). */
/* gave: what this process added to the counter */
static int gave, last;
#ifndef BIG
#define BIG 100000
#endif
#ifdef ENV
static int *env(int *c) { if (*c != last) gave += *c - last; *c = last = nd_range(-BIG, BIG); return c; }
#define CELL(c) (*env(&(c)))
#ifdef CAS_FAILS
static int cas_failed; static bool cas(int *c, int o, int n) { if (*c == o) { *c = n; return 1; } ASSUME(++cas_failed <= CAS_FAILS); return 0; }
#else
static bool cas(int *c, int o, int n) { if (*c == o) { *c = n; return 1; } return 0; }
#endif
#define __sync_bool_compare_and_swap cas
#else
#define CELL(c) (c)
#endif
#include "comm_lend_light.c"
#undef verbose
#include "lewi.c"
typedef subprocess_descriptor_t S;
#define SIZE 64
static struct shdata mem;
static int n_threads, last_threads, n_fin, opened, attach0;
int update_threads(const pm_interface_t *pm, int t) { ++n_threads; last_threads = t; return DLB_SUCCESS; }
int mu_get_system_size(void) { return SIZE; }
shmem_handler_t *shmem_init(void **p, const shmem_props_t *pr) { ++opened; *p = &mem; return (shmem_handler_t*)&mem; }
void shmem_finalize(shmem_handler_t *h, bool (*f)(void)) { ++n_fin; }
int pthread_mutex_lock(pthread_mutex_t *m) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }
int main(void) {
    S s; memset(&s, 0, sizeof s); s.options.lewi_keep_cpu_on_blocking_call = nd_bool(); s.options.lewi_greedy = nd_bool();
#ifdef NOT_GREEDY
    ASSUME(!s.options.lewi_greedy);
#endif
    s.options.lewi_warmup = nd_bool();
    int idle = nd_range(-BIG, BIG); last = idle; int att = nd_range(1, BIG); mem.idleCpus = idle; mem.attached_nprocs = att;
    int my = nd_range(0, SIZE), def = nd_range(1, SIZE), maxp = nd_range(0, SIZE); 
    int w = nd_int(), n = nd_int(), err;
#ifdef OP_INIT
    /* registration and the first call */
    bool first = nd_bool(); if (first) { mem.attached_nprocs = 0; }
    s.lewi_ncpus = def; myCPUS = my;
    err = lewi_Init(&s);
    CHECK(err == DLB_SUCCESS && shdata == &mem && opened == 1, "the shared counter is opened");
    CHECK(mem.attached_nprocs == (first ? 0 : att) + 1, "the process is counted");
    CHECK(mem.idleCpus == (first ? 0 : idle), "the first process finds no idle CPUs, others leave them as they are");
    CHECK(myCPUS == def && IMPL(n_threads, last_threads == def) && IMPL(my != def, n_threads), "the process starts with its own CPUs and is told so");
    CHECK(defaultCPUS == def && greedy == s.options.lewi_greedy && enabled, "ready");
    err = lewi_Finalize(&s);
    CHECK(err == DLB_SUCCESS && mem.attached_nprocs == (first ? 0 : att) && mem.idleCpus == (first ? 0 : idle) && n_fin == 1, "leaving undoes the registration");
    bool sub = nd_bool(); cleanup_shmem(&mem, 1);
    COVER(first, "first"); COVER(!first, "next");
    return 0;
#else
    shdata = &mem; shm_handler = (shmem_handler_t*)&mem; subprocesses_attached = 1;
    defaultCPUS = default_cpus = def; greedy = s.options.lewi_greedy; myCPUS = my; enabled = nd_bool(); max_parallelism = maxp; bool en = enabled;
#ifdef GREEDY_OPS
    ASSUME(w == 1 || w == 3 || w == 9); ASSUME(greedy); /* the operations that take CPUs without asking for a number */
#endif
    switch (w) {
    case 0: err = lewi_Lend(&s); break;
    case 1: err = lewi_Reclaim(&s); break;
    case 2: err = lewi_IntoBlockingCall(&s); break;
    case 3: err = lewi_OutOfBlockingCall(&s); break;
    case 4: err = lewi_Borrow(&s); n = INT_MAX; break;
    case 5: err = lewi_BorrowCpus(&s, n); break;
    case 6: ASSUME(n >= 1); err = lewi_SetMaxParallelism(&s, n); break;
    case 7: err = lewi_UnsetMaxParallelism(&s); break;
    case 8: err = lewi_EnableDLB(&s); break;
    case 9: err = lewi_DisableDLB(&s); break;
    case 10: err = lewi_Finalize(&s); break;
    default: return 0;
    }
    int now = myCPUS; gave += mem.idleCpus - last;
    if (w == 10) { CHECK(gave == my - def, "a process that leaves takes back what it lent and returns what it borrowed"); CHECK(mem.attached_nprocs == att - 1 && n_fin == 1 && n_threads == 0, "it is no longer counted"); return 0; }
    CHECK(gave == my - now, "CPUs are neither lost nor created: what this process gains or loses is taken from or given to the idle ones");
    CHECK(now >= 0 && mem.attached_nprocs == att, "no process has a negative number of CPUs");
    CHECK(n_threads == (now != my) && IMPL(n_threads, last_threads == now), "the program is told once about each change of its number of CPUs");
    if (w == 0) CHECK(now == 1 && err == DLB_SUCCESS, "lending keeps one CPU");
    if (w == 2) CHECK(now == (!en ? my : s.options.lewi_keep_cpu_on_blocking_call ? 1 : 0), "a blocked process lends all its CPUs, or keeps one if asked to");
    if (w == 1 || (w == 3 && en)) { CHECK(greedy ? now >= def : now == def, "reclaiming restores the CPUs of the process");
#ifndef ENV
        CHECK(now == def + (greedy && idle - (def - my) > 0 ? idle - (def - my) : 0), "a greedy process also takes all idle CPUs, any other exactly its own"); COVER(now > def, "greedy");
#endif
    }
    if (w == 3 && !en) CHECK(now == my, "disabled");
    if (w == 4 || w == 5) {
        CHECK(err == (n < 0 ? DLB_ERR_PERM : !en ? DLB_ERR_DISBLD : now != my ? DLB_SUCCESS : DLB_NOUPDT), "the result of borrowing tells whether anything changed");
        CHECK(now <= my || (maxp == 0 || now <= maxp), "borrowing respects the limit");
        CHECK(now <= my || now - my <= n, "never more than asked for");
#ifndef ENV
        if (n >= 0 && en) { int want = maxp > 0 && maxp - my < n ? maxp - my : n;
            CHECK(now == (idle < 0 && my > def ? my - (-idle < my - def ? -idle : my - def) : idle > 0 ? my + (want < idle ? want : idle) : my), "borrowing takes the idle CPUs, and returns borrowed ones that others need"); }
        COVER(w == 5 && now > my, "borrowed"); COVER(now < my, "returned"); COVER(n < 0, "refused");
#endif
        CHECK(IMPL(now < my, now >= def || (maxp > 0 && now == maxp)), "only borrowed CPUs are returned");
    }
    if (w == 6) CHECK(now == (my > n ? n : my) && max_parallelism == n, "a lower limit gives up the CPUs above it");
    if (w == 7) CHECK(now == my && max_parallelism == 0, "no limit");
    if (w == 8) CHECK(enabled && now == my, "enabled");
    if (w == 9) CHECK(!enabled && now == (en ? def : my), "disabling leaves the process with its own CPUs");
    return 0;
#endif
}
