/* Asynchronous helpers (shmem_async.c): every change announced to a process reaches its program once, in order. */
#include "verif.h"
#include <pthread.h>
#include <sched.h>
typedef struct { int live; int held; } vmx; typedef struct { int live; } vcv;
#undef PTHREAD_MUTEX_INITIALIZER
#define PTHREAD_MUTEX_INITIALIZER { 1, 0 }
#define pthread_mutex_t vmx
#define pthread_cond_t vcv
static int v_lock(vmx *m) { CHECK(m->live, "[sync] the lock exists"); CHECK(!m->held, "[sync] no self deadlock"); m->held = 1; return 0; }
static int v_unlock(vmx *m) { CHECK(m->held, "[sync] lock held"); m->held = 0; return 0; }
static int v_trylock(vmx *m) { return m->held ? 16 : v_lock(m); }
static int v_minit(vmx *m, const void *a) { m->live = 1; m->held = 0; return 0; }
static int v_mdestroy(vmx *m) { CHECK(m->live && !m->held, "[sync] unused lock"); m->live = 0; return 0; }
static int v_cinit(vcv *c, const void *a) { c->live = 1; return 0; }
static int v_cdestroy(vcv *c) { CHECK(c->live, "[sync] exists"); c->live = 0; return 0; }
static int n_signal; static int v_signal(vcv *c) { CHECK(c->live, "[sync] exists"); ++n_signal; return 0; }
static int v_cwait(vcv *c, vmx *m);
static int v_shared(int x) { CHECK(x == PTHREAD_PROCESS_SHARED, "[sync] shared between processes"); return 0; }
static void *created_arg; static int n_created, n_joined; static int v_create(pthread_t *t, const void *a, void *(*f)(void*), void *arg) { created_arg = arg; ++n_created; return 0; }
static int v_join(pthread_t t, void **r);
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
#define pthread_mutex_trylock v_trylock
#define pthread_mutex_init v_minit
#define pthread_mutex_destroy v_mdestroy
#define pthread_cond_init v_cinit
#define pthread_cond_destroy v_cdestroy
#define pthread_cond_signal v_signal
#define pthread_cond_broadcast v_signal
#define pthread_cond_wait v_cwait
#define pthread_mutexattr_init(a) 0
#define pthread_mutexattr_destroy(a) 0
#define pthread_mutexattr_setpshared(a, x) v_shared(x)
#define pthread_condattr_init(a) 0
#define pthread_condattr_destroy(a) 0
#define pthread_condattr_setpshared(a, x) v_shared(x)
#define pthread_create v_create
#define pthread_join v_join
#define pthread_setaffinity_np(...) 0
#define memcpy(d, s, n) do { CHECK((n) == sizeof(cpu_set_t), "a mask"); *(cpu_set_t*)(d) = *(const cpu_set_t*)(s); } while (0)
#include "shmem_async.c"
#ifndef NH
#define NH 2
#endif
static helper_t hs[NH]; static shdata_t mem; static int table_lock, opened, closed; static pm_interface_t pmi; static int hwas[NH];
__thread subprocess_descriptor_t *thread_spd; void spd_enter_dlb(subprocess_descriptor_t *s) { }
const char *mu_to_str(const cpu_set_t *m) { return ""; } int mu_get_system_size(void) { return NH; }
shmem_handler_t *shmem_init(void **p, const shmem_props_t *pr) { ++opened; *p = &mem; return (shmem_handler_t*)&mem; }
void shmem_finalize(shmem_handler_t *h, bool (*f)(void)) { CHECK(h, "open"); ++closed; }
void shmem_lock(shmem_handler_t *h) { CHECK(!table_lock, "[sync] no self deadlock"); table_lock = 1; } void shmem_unlock(shmem_handler_t *h) { CHECK(table_lock, "[sync] lock held"); table_lock = 0; }
static int n_fatal; 
static unsigned bits(const cpu_set_t *s) { return (unsigned)s->__bits[0]; }
/* what the program was told */
enum { MAXL = 6 }; typedef struct { int act, cpuid, ncpus; unsigned set; } rec; static rec done[MAXL], sent[MAXL]; static int ndone, nsent;
static void log1(int a, int c, int n, unsigned s, const pm_interface_t *pm) { CHECK(pm == &pmi, "the callbacks of the process"); CHECK(ndone < MAXL, "no message is handled twice"); done[ndone].act = a; done[ndone].cpuid = c; done[ndone].ncpus = n; done[ndone].set = s; ++ndone; }
int enable_cpu(const pm_interface_t *pm, int c) { log1(ACTION_ENABLE_CPU, c, 0, 0, pm); return 0; }
int disable_cpu(const pm_interface_t *pm, int c) { log1(ACTION_DISABLE_CPU, c, 0, 0, pm); return nd_int(); }
int enable_cpu_set(const pm_interface_t *pm, const cpu_set_t *s) { log1(ACTION_ENABLE_CPU_SET, 0, 0, bits(s), pm); return 0; }
int disable_cpu_set(const pm_interface_t *pm, const cpu_set_t *s) { log1(ACTION_DISABLE_CPU_SET, 0, 0, bits(s), pm); return nd_int(); }
int update_threads(const pm_interface_t *pm, int n) { log1(ACTION_SET_NUM_CPUS, 0, n, 0, pm); return 0; }
static unsigned len(helper_t *h) { return (h->q_head + QUEUE_SIZE - h->q_tail) % QUEUE_SIZE; }
static void table(void) {
    mem.helpers = hs; shdata = &mem; shm_handler = (shmem_handler_t*)&mem; max_helpers = NH; subprocesses_attached = nd_range(1, 3);
    for (int i = 0; i < NH; ++i) { hs[i].pid = nd_bool() ? nd_range(1, 5) : 0; hwas[i] = hs[i].pid; for (int j = 0; j < i; ++j) ASSUME(!hs[i].pid || hs[i].pid != hs[j].pid);
        if (hs[i].pid) { hs[i].q_lock.live = hs[i].q_wait_data.live = 1; hs[i].pm = &pmi; hs[i].q_head = nd_range(0, QUEUE_SIZE - 1); hs[i].q_tail = nd_range(0, QUEUE_SIZE - 1); hs[i].joinable = nd_bool(); } }
}
static int who(int pid) { for (int i = 0; i < NH; ++i) if (hwas[i] == pid) return i; return -1; }
static int sender; static bool joining;
/* one announcement, through the public function */
static void announce(int pid) {
    int a = nd_uint() % 5, c = nd_int(), n = nd_int(); cpu_set_t s; CPU_ZERO(&s); unsigned b = nd_uint(); s.__bits[0] = b;
    rec r = { 0, 0, 0, 0 };
    if (a == 0) { r.act = ACTION_ENABLE_CPU; r.cpuid = c; shmem_async_enable_cpu(pid, c); } else if (a == 1) { r.act = ACTION_DISABLE_CPU; r.cpuid = c; shmem_async_disable_cpu(pid, c); }
    else if (a == 2) { r.act = ACTION_ENABLE_CPU_SET; r.set = b; shmem_async_enable_cpu_set(pid, &s); } else if (a == 3) { r.act = ACTION_DISABLE_CPU_SET; r.set = b; shmem_async_disable_cpu_set(pid, &s); }
    else { r.act = ACTION_SET_NUM_CPUS; r.ncpus = n; shmem_async_set_num_cpus(pid, n); }
    sent[nsent++] = r;
}
static helper_t *self; static bool spurious;
#ifndef NMSG
#define NMSG 3
#define PRE 0
#define SPUR 0
#define POS 0
#endif
static int v_cwait(vcv *c, vmx *m) {
    CHECK(m->held && m == &self->q_lock && c == &self->q_wait_data, "[sync] waits with its own lock"); CHECK(len(self) == 0, "a helper does not sleep while there are messages");
    m->held = 0; if (SPUR && !spurious) { spurious = 1; }
    else if (nsent < NMSG) { int g = n_signal; announce(self->pid); CHECK(n_signal == g + 1, "the helper is woken up"); if (nsent < NMSG) announce(self->pid); }
    else { ASSUME(!self->joinable); message_t j = { .action = ACTION_JOIN }; enqueue_message(self, &j); joining = 1; }
    m->held = 1; return 0;
}
static bool rec_is(rec *a, rec *b) { return a->act == b->act && a->cpuid == b->cpuid && a->ncpus == b->ncpus && a->set == b->set; }
static int v_join(pthread_t t, void **r) {
#ifdef OP_FINALIZE
    CHECK(self->joinable, "the helper is told to stop before waiting for it"); CHECK(!self->q_lock.held, "no lock is held while waiting"); CHECK(self->queue[(self->q_head + QUEUE_SIZE - 1) % QUEUE_SIZE].action == ACTION_JOIN, "the end comes after all announcements"); self->q_tail = self->q_head;
#endif
    ++n_joined; return 0;
}
int main(void) {
    table(); int e; int pid = nd_range(1, 6); int k = who(pid);
#if defined(OP_SEND)
    unsigned w = nd_uint() % NH, x = nd_uint() % QUEUE_SIZE; message_t old = hs[w].queue[x]; helper_t *h = k >= 0 ? &hs[k] : 0;
    hs[w].queue[x].action = old.action = nd_uint() & 7; hs[w].queue[x].cpuid = old.cpuid = nd_int();
    unsigned h0 = h ? h->q_head : 0, t0 = h ? h->q_tail : 0, l0 = h ? len(h) : 0; unsigned wh = hs[w].q_head, wt = hs[w].q_tail; bool j = h && h->joinable; ASSUME(l0 < QUEUE_SIZE - 1);
    announce(pid);
    bool in = h && !j;
    CHECK(n_signal == in, "the helper of that process, and only that one, is woken up");
    if (in) { message_t *m = &h->queue[h0]; CHECK(len(h) == l0 + 1 && h->q_tail == t0, "the announcement is queued behind the others"); CHECK(m->action == (action_t)sent[0].act && IMPL(sent[0].act == ACTION_ENABLE_CPU || sent[0].act == ACTION_DISABLE_CPU, m->cpuid == sent[0].cpuid) && IMPL(sent[0].act == ACTION_SET_NUM_CPUS, m->ncpus == sent[0].ncpus) && IMPL(sent[0].act == ACTION_ENABLE_CPU_SET || sent[0].act == ACTION_DISABLE_CPU_SET, bits(&m->cpu_set) == sent[0].set), "the announcement is queued as it is"); }
    if (!(in && w == k && x == h0)) CHECK(hs[w].queue[x].action == old.action && hs[w].queue[x].cpuid == old.cpuid, "other announcements stay"); if (!(in && w == k)) CHECK(hs[w].q_head == wh && hs[w].q_tail == wt, "other helpers are not concerned");
    for (int i = 0; i < NH; ++i) CHECK(!hs[i].q_lock.held, "[sync] locks are released");
    COVER(in && h0 == QUEUE_SIZE - 1, "wraps around"); COVER(!in, "not delivered");
#elif defined(OP_TAKE)
    ASSUME(k == 0 && len(&hs[0]) > 0); helper_t *h = self = &hs[0]; unsigned t0 = h->q_tail, l0 = len(h), x = nd_uint() % QUEUE_SIZE; h->queue[t0].action = nd_uint() % 8; h->queue[t0].cpuid = nd_int(); h->queue[t0].ncpus = nd_int(); message_t want = h->queue[t0], old, m; h->queue[x].cpuid = x == t0 ? want.cpuid : nd_int(); old = h->queue[x]; unsigned h0 = h->q_head;
    dequeue_message(h, &m);
    CHECK(m.action == want.action && m.cpuid == want.cpuid && m.ncpus == want.ncpus, "the oldest announcement is taken"); CHECK(len(h) == l0 - 1 && h->q_head == h0, "it is taken once"); CHECK(h->status == HELPER_BUSY && !h->q_lock.held, "[sync] lock released"); if (x != t0) CHECK(h->queue[x].cpuid == old.cpuid && h->queue[x].action == old.action, "other announcements stay");
    COVER(t0 == QUEUE_SIZE - 1, "wraps around");
#elif defined(OP_HELPER)
    for (int i = 0; i < NH; ++i) ASSUME(hs[i].pid == 0 || i == 0); ASSUME(k == 0); helper_t *h = self = &hs[0]; h->joinable = 0; h->q_head = h->q_tail = POS; pid = h->pid;
    for (int i = 0; i < PRE; ++i) announce(pid);
    thread_start(h);
    CHECK(joining && len(h) == 0, "a helper ends when it is told to, after all announcements"); CHECK(ndone == nsent, "every announcement reaches the program once"); for (int i = 0; i < MAXL; ++i) if (i < nsent) CHECK(rec_is(&done[i], &sent[i]), "announcements reach the program in order, as they are");
    CHECK(!h->q_lock.held, "[sync] locks are released");
    COVER(nsent == NMSG, "all");
#elif defined(OP_INIT)
    /* a helper appears */
    ASSUME(k < 0); bool first = nd_bool(); if (first) { shm_handler = 0; shdata = 0; subprocesses_attached = 0; } int sub0 = subprocesses_attached; int nfree = 0; for (int i = 0; i < NH; ++i) nfree += !hwas[i]; cpu_set_t mk; mk.__bits[0] = 2;
    e = shmem_async_init(pid, &pmi, &mk, "key"); int n = 0, at = -1; for (int i = 0; i < NH; ++i) { if (hs[i].pid == pid) { ++n; at = i; } else CHECK(hs[i].pid == hwas[i], "other helpers stay"); }
    CHECK(e == (nfree ? DLB_SUCCESS : DLB_ERR_NOMEM), "a helper appears if there is room");
    if (nfree) { helper_t *h = &hs[at]; CHECK(n == 1 && !hwas[at], "one place is taken"); CHECK(len(h) == 0 && h->q_head < QUEUE_SIZE && !h->joinable, "the helper starts without announcements"); CHECK(h->q_lock.live && h->q_wait_data.live, "the helper can be woken up"); CHECK(h->pm == &pmi, "the helper has the callbacks of its process"); CHECK(h->mask.__bits[0] == mk.__bits[0], "the helper has the mask of its process"); CHECK(n_created == 1 && created_arg == h, "one thread serves it"); CHECK(opened == first && closed == 0 && subprocesses_attached == sub0 + 1 && shm_handler, "shared memory is attached once"); }
    else CHECK(n == 0 && n_created == 0 && opened == first && closed == first && subprocesses_attached == sub0 && IFF(shm_handler, sub0), "[refused] a refused helper leaves nothing behind");
    CHECK(!table_lock && !mutex.held, "[sync] locks are released");
    COVER(nfree == 0, "full"); COVER(nfree && first, "first");
#elif defined(OP_FINALIZE)
    helper_t *h = k >= 0 ? &hs[k] : 0; self = h; int sub0 = subprocesses_attached; if (h) ASSUME(!h->joinable && len(h) < QUEUE_SIZE - 1);
    e = shmem_async_finalize(pid);
    CHECK(e == (h ? DLB_SUCCESS : DLB_ERR_NOPROC), "a helper that exists can be removed"); CHECK(n_joined == (h != 0), "its thread ends first"); for (int i = 0; i < NH; ++i) CHECK(hs[i].pid == (i == k ? 0 : hwas[i]), "the place is free, others stay");
    if (h) CHECK(!h->joinable && h->pid == 0 && !h->q_lock.live && closed == (sub0 == 1) && IFF(shm_handler, sub0 > 1) && IFF(shdata, sub0 > 1), "shared memory is left with the last helper of the process"); else CHECK(closed == 0 && shm_handler && subprocesses_attached == sub0, "nothing is removed");
    CHECK(!table_lock && !mutex.held, "[sync] locks are released");
    COVER(h && closed, "last"); COVER(!h, "unknown");
#elif defined(OP_CRASH)
    cleanup_shmem(&mem, pid); for (int i = 0; i < NH; ++i) { CHECK(hs[i].pid == (i == k ? 0 : hwas[i]), "the helper of a dead process disappears, others stay"); if (i == k) CHECK(!hs[i].joinable && !hs[i].pm, "the place is free"); }
    if (nd_bool()) { announce(pid); CHECK(n_signal == 0, "a dead process is not written to"); }
    COVER(k >= 0, "known");
#endif
    return 0;
}
