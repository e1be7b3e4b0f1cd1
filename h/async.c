/* Asynchronous LeWI without masks (lewi_async.c over shmem_lewi_async.c): every process owns a number of CPUs; the rest of the machine sees
 * idle CPUs, queued requests and messages. The request list is used through its contract (C11: every process has one amount). */
#include "verif.h"
#ifndef NP
#define NP 3
#endif
#ifndef MAXC
#define MAXC 15
#endif
#ifndef REG
#define REG nd_bool()
#endif
#define SMALL() (nd_uint() & MAXC)
#if !defined(OP_LEND) && !defined(OP_BLOCK) && !defined(OP_BORROW) && !defined(OP_INIT) && !defined(OP_FULL)
#define NEED_SUM
#endif
#define PID(k) (101 + (k))
#include "shmem_lewi_async.c"
#undef verbose
#include "lewi_async.c"
#define NODE (NP)
typedef subprocess_descriptor_t S;
/* ---- request list by contract */
static int who(pid_t p) { int r = -1; for (int k = 0; k < NP; ++k) if (p == PID(k)) r = k; return r; }
#define SLOT(q, k) ((q)->queue[k])
void queue_lewi_reqs_init(queue_lewi_reqs_t *q) { for (int k = 0; k < NP; ++k) SLOT(q, k).howmany = 0; }
unsigned queue_lewi_reqs_size(const queue_lewi_reqs_t *q) { unsigned n = 0; for (int k = 0; k < NP; ++k) if (SLOT(q, k).howmany) ++n; return n; }
unsigned queue_lewi_reqs_get(queue_lewi_reqs_t *q, pid_t p) { for (int k = 0; k < NP; ++k) if (p == PID(k)) return SLOT(q, k).howmany; return 0; }
unsigned queue_lewi_reqs_remove(queue_lewi_reqs_t *q, pid_t p) { for (int k = 0; k < NP; ++k) if (p == PID(k)) { unsigned r = SLOT(q, k).howmany; SLOT(q, k).howmany = 0; return r; } return 0; }
int queue_lewi_reqs_push(queue_lewi_reqs_t *q, pid_t p, unsigned n) {
    CHECK(who(p) >= 0, "requests name a process");
    for (int k = 0; k < NP; ++k) if (p == PID(k)) { if (n == 0) SLOT(q, k).howmany = 0; else SLOT(q, k).howmany += n; }
    return DLB_SUCCESS;
}
unsigned queue_lewi_reqs_pop_ncpus(queue_lewi_reqs_t *q, unsigned c, lewi_request_t *out, unsigned *nreqs, unsigned maxr) {
    CHECK(maxr >= NP, "there is room for the answer of every process");
    unsigned n = 0, left = c; bool all = true;
    CHECK(queue_lewi_reqs_size(q) <= 2, "the process itself does not compete for the CPUs it gives or takes"); /* so that two orders are all orders */
    bool up = nd_bool();
    for (int i = 0; i < NP; ++i) {
        unsigned g = SMALL();
        for (int j = 0; j < NP; ++j) if (j == (up ? i : NP - 1 - i) && SLOT(q, j).howmany) {
            ASSUME(g <= SLOT(q, j).howmany && g <= left);
            if (g > 0) { if (n == 0) { out[0].pid = PID(j); out[0].howmany = g; } else { out[1].pid = PID(j); out[1].howmany = g; } ++n; left -= g; SLOT(q, j).howmany -= g; }
        }
    }
    for (int k = 0; k < NP; ++k) if (SLOT(q, k).howmany) all = false;
    ASSUME(left == 0 || all);
    *nreqs = n;
    return left;
}
/* ---- environment */
static struct { lewi_async_shdata_t d; } mem; static lewi_process_t procs[NP];
static int n_threads, last_threads, opened, n_fin, locked; static int told[NP]; static int n_told[NP];
int update_threads(const pm_interface_t *pm, int t) { ++n_threads; last_threads = t; return DLB_SUCCESS; }
void shmem_async_set_num_cpus(int pid, int n) { CHECK(!locked, "messages are sent after the table is unlocked"); for (int k = 0; k < NP; ++k) if (pid == PID(k)) { ++n_told[k]; told[k] = n; } }
int mu_get_system_size(void) { return NODE; }
shmem_handler_t *shmem_init(void **p, const shmem_props_t *pr) { ++opened; *p = &mem.d; return (shmem_handler_t*)&mem; }
void shmem_finalize(shmem_handler_t *h, bool (*f)(void)) { ++n_fin; }
void shmem_lock(shmem_handler_t *h) { CHECK(!locked, "no double locking"); locked = 1; }
void shmem_unlock(shmem_handler_t *h) { CHECK(locked, "unlock"); locked = 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }

static bool reg[NP]; static unsigned ini[NP], cur[NP], req[NP], idle;
#define PR(k) (procs[k])
#define RQ(k) (mem.d.requests.queue[k].howmany)
int main(void) {
    S s; memset(&s, 0, sizeof s); s.options.lewi_keep_cpu_on_blocking_call = nd_bool();
    int me = ME; bool crashed = nd_bool();
    mem.d.processes = procs; node_size = NODE; max_processes = NODE; unsigned nreg = 0; int sum = 0; int top = 0;
    idle = SMALL(); mem.d.idle_cpus = idle; sum = idle; bool waiting = false;
    for (int k = 0; k < NP; ++k) {
        reg[k] = REG;
        if (reg[k]) {
            ini[k] = SMALL(); cur[k] = SMALL(); req[k] = SMALL(); ++nreg; top = k + 1;
            PR(k).pid = PID(k); PR(k).initial_ncpus = ini[k]; PR(k).current_ncpus = cur[k]; RQ(k) = req[k]; sum += (int)cur[k] - (int)ini[k]; if (req[k]) waiting = true;
        }
    }
    /* invariant: CPUs are conserved; with crashes, some processes may use CPUs of a process that died */
#ifdef NEED_SUM
    ASSUME(crashed ? sum >= 0 : sum == 0);
#endif
    ASSUME(crashed || idle == 0 || !waiting);
    mem.d.attached_nprocs = nreg; mem.d.proc_list_head = nd_range(top, NP);
    for (int k = 0; k < NP; ++k) if (k == me) s.id = PID(k);
    lewi_info_t inf, *info = &inf; inf.prev_requested = SMALL(); unsigned prev0 = inf.prev_requested;
    int err = 0, n = nd_int(); (void)n;
    bool mereg = false; unsigned c0 = 0, i0 = 0, r0 = 0; for (int k = 0; k < NP; ++k) if (k == me) { mereg = reg[k]; c0 = cur[k]; i0 = ini[k]; r0 = req[k]; }
    shdata = &mem.d; shm_handler = (shmem_handler_t*)&mem; subprocesses_attached = 1; my_process = NULL;
    if (mereg && nd_bool()) for (int k = 0; k < NP; ++k) if (k == me) my_process = &PR(k);
#if defined(OP_FULL)
    /* more processes than places */
    for (int k = 0; k < NP; ++k) ASSUME(reg[k]);
    s.id = 999; s.lewi_ncpus = SMALL(); shm_handler = NULL; shdata = NULL; subprocesses_attached = 0;
    err = lewi_async_Init(&s);
    CHECK(err == DLB_SUCCESS && last_threads == (int)s.lewi_ncpus, "a process without room works with its own CPUs");
    CHECK(lewi_async_BorrowCpus(&s, 1) == DLB_ERR_NOPROC && lewi_async_Lend(&s) == DLB_ERR_NOPROC && lewi_async_Reclaim(&s) == DLB_ERR_NOPROC && lewi_async_AcquireCpus(&s, 1) == DLB_ERR_NOPROC, "and is refused");
    err = lewi_async_Finalize(&s);
    CHECK(err == DLB_SUCCESS && last_threads == (int)s.lewi_ncpus && n_fin == 1, "it leaves with its own CPUs");
    for (int k = 0; k < NP; ++k) CHECK(PR(k).pid == PID(k) && PR(k).initial_ncpus == ini[k] && PR(k).current_ncpus == cur[k] && RQ(k) == req[k] && n_told[k] == 0, "others are not affected");
    CHECK(mem.d.attached_nprocs == NP && mem.d.idle_cpus == idle, "and it is not counted");
    return 0;
#elif defined(OP_INIT)
    ASSUME(!mereg); if (nreg == 0) { ASSUME(1); }
    bool first = nreg == 0; s.lewi_ncpus = SMALL(); shm_handler = NULL; shdata = NULL; subprocesses_attached = 0;
    err = lewi_async_Init(&s);
    CHECK(err == DLB_SUCCESS && opened == 1, "the table is opened"); CHECK(n_threads == 1 && last_threads == s.lewi_ncpus, "the process starts with its own CPUs");
    CHECK(mem.d.idle_cpus == (first ? 0 : idle), "the first process finds no idle CPUs, others leave them as they are");
    unsigned cnt = 0, nme = 0;
    for (int k = 0; k < NP; ++k) {
        if (PR(k).pid) ++cnt;
        if (PR(k).pid == s.id) { ++nme; CHECK(!reg[k] && PR(k).initial_ncpus == s.lewi_ncpus && PR(k).current_ncpus == s.lewi_ncpus && k < (int)mem.d.proc_list_head && my_process == &PR(k), "a free entry is taken, with its own CPUs"); }
        else CHECK(IMPL(reg[k], PR(k).pid == PID(k) && PR(k).initial_ncpus == ini[k] && PR(k).current_ncpus == cur[k] && RQ(k) == req[k]), "other processes keep their entries");
        CHECK(IMPL(first, RQ(k) == 0), "no requests before the first process");
    }
    CHECK(nme == 1 && mem.d.attached_nprocs == cnt, "the process is registered once and counted");
    CHECK(((lewi_info_t*)s.lewi_info)->prev_requested == 0, "nothing asked for yet");
    COVER(first, "first"); COVER(nreg == NP - 1, "last place");
    return 0;
#elif defined(OP_CRASH)
    int d = nd_range(0, NP - 1); bool dreg = false; unsigned dc = 0, di = 0; for (int k = 0; k < NP; ++k) if (k == d) { dreg = reg[k]; dc = cur[k]; di = ini[k]; }
    shdata = NULL; shm_handler = NULL; my_process = NULL; max_processes = 0; /* the table is cleaned while it is being opened */
    cleanup_shmem(&mem.d, PID(d));
    int after = sum + (int)(mem.d.idle_cpus - idle);
    for (int k = 0; k < NP; ++k) {
        if (k == d) CHECK(PR(k).pid == NOBODY && RQ(k) == 0, "a dead process holds no entry and waits for nothing");
        else { CHECK(IFF(reg[k], PR(k).pid == PID(k)), "others stay"); CHECK(IMPL(reg[k], PR(k).initial_ncpus == ini[k] && PR(k).current_ncpus == cur[k] && RQ(k) == req[k]), "others keep their entries"); }
    }
    CHECK(mem.d.attached_nprocs == nreg - (dreg ? 1 : 0), "the dead process is no longer counted");
    if (dreg) after -= (int)dc - (int)di;
    CHECK(after >= 0, "the remaining processes can still get back all their CPUs");
    CHECK(IMPL(dreg && dc >= di, after == sum), "CPUs a dead process borrowed become available");
    CHECK(IMPL(dreg && dc < di, mem.d.idle_cpus == (idle > di - dc ? idle - (di - dc) : 0)), "idle CPUs of a dead process are withdrawn");
    COVER(dreg && dc < di && idle > 0, "lent"); COVER(dreg && dc > di, "borrowed");
    return 0;
#else
    s.lewi_ncpus = mereg ? i0 : 1; s.lewi_info = info;
#if defined(OP_FIN)
    info = malloc(sizeof *info); info->prev_requested = prev0; s.lewi_info = info;
    err = lewi_async_Finalize(&s);
#elif defined(OP_LEND)
    bool one = nd_bool(); if (one) { err = lewi_async_Lend(&s); } else err = lewi_async_LendCpus(&s, n);
#elif defined(OP_BLOCK)
    err = lewi_async_IntoBlockingCall(&s);
#elif defined(OP_RECLAIM)
    bool out = nd_bool(); err = out ? lewi_async_OutOfBlockingCall(&s) : lewi_async_Reclaim(&s);
#elif defined(OP_ACQUIRE)
    ASSUME(n <= MAXC); err = lewi_async_AcquireCpus(&s, n);
#elif defined(OP_BORROW)
    bool max = nd_bool(); err = max ? lewi_async_Borrow(&s) : lewi_async_BorrowCpus(&s, n); if (max) n = INT_MAX;
#elif defined(OP_DISABLE)
    err = lewi_async_Disable(&s);
#elif defined(OP_ENABLE)
    err = lewi_async_Enable(&s);
#endif
    CHECK(!locked, "the table is unlocked");
    /* common part */
    int diff = (int)(mem.d.idle_cpus - idle); bool wait1 = false; unsigned c1 = 0, r1 = 0; unsigned nreg1 = 0; bool others_same = true;
    for (int k = 0; k < NP; ++k) {
        if (PR(k).pid) ++nreg1;
        if (k == me) { c1 = PR(k).current_ncpus; r1 = RQ(k); CHECK(n_told[k] == 0, "a process sends no message to itself"); }
        else if (reg[k]) {
            unsigned x = PR(k).current_ncpus; diff += (int)x - (int)cur[k];
            CHECK(PR(k).pid == PID(k) && PR(k).initial_ncpus == ini[k], "other processes stay registered");
            CHECK(IMPL(x > cur[k], RQ(k) == req[k] - (x - cur[k]) && x - cur[k] <= req[k]), "another process only gets CPUs it asked for, and its request shrinks by them");
            CHECK(IMPL(x < cur[k], x >= ini[k] && RQ(k) == req[k] + (cur[k] - x)), "another process only gives back CPUs it borrowed, and is queued to get them again");
            CHECK(IMPL(x == cur[k], RQ(k) == req[k]), "otherwise nothing changes for it");
            CHECK(n_told[k] == (x != cur[k]) && IMPL(n_told[k], told[k] == (int)x), "a process whose CPUs change is told its new number once, and no other");
            if (x != cur[k]) others_same = false;
        } else CHECK(PR(k).pid == NOBODY && n_told[k] == 0 && RQ(k) == 0, "nobody registers");
        if (RQ(k)) wait1 = true;
    }
    CHECK(IMPL(mereg, crashed || mem.d.idle_cpus == 0 || !wait1), "no process waits while CPUs are idle");
    CHECK(mem.d.attached_nprocs == nreg1 && mem.d.proc_list_head <= NP, "registered processes are counted");
    if (!mereg) { CHECK(others_same && mem.d.idle_cpus == idle && c1 == 0 && r1 == 0, "an unregistered process changes nothing"); 
#if !defined(OP_ACQUIRE) && !defined(OP_ENABLE) && !defined(OP_BLOCK) && !defined(OP_FIN)
        CHECK(err < 0 || err == DLB_NOUPDT, "an unregistered process is refused");
#endif
        return 0; }
#if defined(OP_FIN)
    CHECK(err == DLB_SUCCESS && s.lewi_info == NULL && nreg1 == nreg - 1 && n_fin == 1 && r1 == 0 && my_process == NULL, "the process leaves with its requests");
    CHECK(n_threads == 1 && last_threads == (int)i0, "it ends with its own CPUs");
    diff -= (int)c0 - (int)i0; CHECK(diff == 0, "the others keep the CPUs that are theirs, or can get them back");
    COVER(c0 < i0 && !others_same, "reclaimed"); COVER(c0 > i0 && !others_same, "passed on");
#else
    diff += (int)c1 - (int)c0; CHECK(diff == 0, "CPUs are neither lost nor created");
    CHECK(IMPL(c1 != c0, n_threads == 1 && last_threads == (int)c1), "the program is told its new number of CPUs");
    CHECK(IMPL(n_threads, n_threads == 1 && last_threads == (int)c1), "the program is never told a wrong number");
#if defined(OP_LEND) || defined(OP_BLOCK)
#if defined(OP_BLOCK)
    unsigned keep = s.options.lewi_keep_cpu_on_blocking_call ? 1 : 0; bool can = c0 > keep;
    CHECK(err == DLB_SUCCESS, "blocking never fails");
#else
    unsigned keep = one ? 1 : c0 - (unsigned)n; bool can = one ? c0 > 1 : n > 0 && (unsigned)n <= c0;
    CHECK(err == (can ? DLB_SUCCESS : one ? (c0 == 1 ? DLB_NOUPDT : DLB_ERR_PERM) : n == 0 ? DLB_NOUPDT : DLB_ERR_PERM), "lending succeeds exactly when the CPUs are there");
#endif
    CHECK(c1 == (can ? keep : c0), "exactly the CPUs asked for are lent");
    CHECK(IMPL(!can, others_same && r1 == r0 && mem.d.idle_cpus == idle && info->prev_requested == prev0), "a refused call changes nothing");
    if (can) { unsigned lent = c0 - c1, over = c0 > i0 ? (c0 - i0 < lent ? c0 - i0 : lent) : 0;
        CHECK(r1 == 0 && info->prev_requested == (over + r0 ? over + r0 : prev0), "what the process was using or waiting for beyond its own is remembered and no longer queued"); }
    COVER(can && !others_same, "passed on"); COVER(can && mem.d.idle_cpus > idle, "idle");
#elif defined(OP_RECLAIM)
    CHECK(err == (c0 < i0 ? DLB_SUCCESS : DLB_NOUPDT), "reclaiming always succeeds when CPUs are missing");
    if (c0 < i0) { unsigned got = idle > i0 - c0 ? idle - (i0 - c0) : 0; if (got > prev0) got = prev0;
        CHECK(c1 == i0 + got, "the process gets all its CPUs back, and idle ones it asked for before");
        CHECK(r1 == r0 + (prev0 - got) && info->prev_requested == 0, "and what is missing of them is queued"); }
    else CHECK(c1 == c0 && r1 == r0 && others_same && info->prev_requested == prev0, "nothing to do");
    COVER(!others_same, "taken back"); COVER(c1 > i0, "more");
#elif defined(OP_ACQUIRE) || defined(OP_ENABLE)
#if defined(OP_ENABLE)
    if (prev0 == 0) { CHECK(err == DLB_SUCCESS && c1 == c0 && r1 == r0 && others_same, "nothing was asked for"); return 0; }
    n = 0;
#else
    if (n == DLB_DELETE_REQUESTS) { CHECK(err == DLB_SUCCESS && r1 == 0 && c1 == c0 && others_same && info->prev_requested == 0 && mem.d.idle_cpus == idle, "all requests of the process are deleted, and only these"); return 0; }
    if (n <= 0) { CHECK(err < 0 && r1 == r0 && c1 == c0 && others_same && mem.d.idle_cpus == idle && info->prev_requested == prev0, "a senseless number is refused"); return 0; }
#endif
    unsigned want = (unsigned)n + prev0, miss = i0 > c0 ? i0 - c0 : 0, avail = idle > miss ? idle : miss, got = want < avail ? want : avail;
    CHECK(c1 == c0 + got, "the process gets its own CPUs, and beyond them the idle ones, up to what it asks for");
    CHECK(r1 == r0 + (want - got), "the rest is queued");
    CHECK(err == (got < want ? DLB_NOTED : DLB_SUCCESS) && info->prev_requested == 0, "the result tells whether something is left to wait for");
    COVER(!others_same, "taken back"); COVER(got < want && got > 0, "partly");
#elif defined(OP_BORROW)
    unsigned got = n < 0 ? 0 : (unsigned)n < idle ? (unsigned)n : idle;
    CHECK(c1 == c0 + got && others_same && r1 == r0, "exactly the idle CPUs asked for are borrowed");
    CHECK(n < 0 ? err == DLB_ERR_PERM : err == (got ? DLB_SUCCESS : DLB_NOUPDT), "the result tells whether anything was borrowed");
    COVER(n < 0, "refused"); COVER(got > 1, "got");
#elif defined(OP_DISABLE)
    CHECK(err == DLB_SUCCESS && c1 == i0, "a disabled process has exactly its own CPUs");
    CHECK(r1 == 0, "and waits for nothing");
    unsigned over = c0 > i0 ? c0 - i0 : 0;
    CHECK(info->prev_requested == (over + r0 ? over + r0 : prev0), "what it waited for is remembered");
    COVER(c0 > i0 && !others_same, "passed on"); COVER(c0 < i0 && !others_same, "taken back"); COVER(c0 == i0 && r0 > 0, "only request");
#endif
#endif
    return 0;
#endif
}
