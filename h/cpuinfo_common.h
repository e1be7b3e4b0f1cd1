/* Shared CPU table (LeWI mask): state generator, ghost snapshot and the transition
 * contract every operation must satisfy. The code under contract is the text of
 * /repo/src/LB_comm/shmem_cpuinfo.c, included below. */
#include "verif.h"
#ifndef MASKLIM
#define MASKLIM NCPUS
#endif
#include "shmem_cpuinfo.c"
#include "topo.h"
#ifndef NCPUS
#define NCPUS 4
#endif
#ifndef SMT
#define SMT 1
#endif
#ifndef CPN
#define CPN (NCPUS/2)
#endif
#ifndef QUEUES
#define QUEUES 0
#endif
#ifndef QFRONT
#define QFRONT 0
#endif
#ifndef QMAX
#define QMAX 2
#endif
#ifndef NPID
#define NPID 3
#endif
#define ME 2           /* the calling process; the others are 1..NPID */
__thread subprocess_descriptor_t *thread_spd = NULL;
static int lock_depth = 0;
static bool bad_lock = false;
void shmem_lock(shmem_handler_t *h) { if (lock_depth) bad_lock = true; ++lock_depth; }
void shmem_unlock(shmem_handler_t *h) { if (lock_depth != 1) bad_lock = true; --lock_depth; }
static int64_t the_time;
int64_t get_time_in_ns(void) { return the_time; }
void get_time(struct timespec *t) { t->tv_sec = 0; t->tv_nsec = 0; }

#ifdef OP_INIT
shmem_handler_t *shmem_init(void **p, const shmem_props_t *pr) { return NULL; }
#else
shmem_handler_t *shmem_init(void **p, const shmem_props_t *pr) { return NULL; }
#endif
void shmem_finalize(shmem_handler_t *h, bool (*f)(void)) { (void)f(); }
bool shmem_exists(const char *n, const char *k) { return false; }
static shdata_t memx;
static cpuinfo_t mem_node[NCPUS];
typedef struct { pid_t owner, guest; cpu_state_t state; bool free, occ; int nreq; pid_t req[CQSIZE]; } ocpu_t;
static ocpu_t old[NCPUS], nw[NCPUS];
typedef struct { pid_t pid; unsigned howmany; unsigned long allowed; } oreq_t;
static oreq_t ogr[QMAX + 2], ngr[QMAX + 2];
static int n_ogr, n_ngr;
static cpuinfo_task_t task_items[2*NCPUS];
static array_cpuinfo_task_t tasks;
/* tasks, per CPU */
static int n_en[NCPUS], n_dis[NCPUS];
static pid_t en[NCPUS], dis[NCPUS];

static pid_t nd_pid(void) { pid_t p = nd_int(); ASSUME(p >= 0 && p <= NPID); return p; }
static unsigned long nd_bits(void) { unsigned char b = nd_uchar(); ASSUME(b < (1u << NCPUS)); return b; }
static void nd_user_mask(cpu_set_t *m) { unsigned char b = nd_uchar(); ASSUME(b < (1u << MASKLIM)); CPU_ZERO(m); m->__bits[0] = b; }
static void nd_mask(cpu_set_t *m) { CPU_ZERO(m); m->__bits[0] = nd_bits(); }

/* Representation invariant of the table.
 * - a core is registered by one process only (the documented precondition of SMT mode)
 * - the two index masks cover what they index; the cores of the occupied index are whole */
static bool wf(const ocpu_t *s, int i) {
    const ocpu_t *c = &s[i];
    bool ok = (c->state == CPU_DISABLED || c->state == CPU_BUSY || c->state == CPU_LENT)
      && IMPL(c->owner == NOBODY, c->state != CPU_BUSY)
      && IMPL(c->owner != NOBODY, c->state != CPU_DISABLED)
      && IMPL(c->state == CPU_LENT && c->guest == NOBODY, c->free)
      && IMPL(c->owner != NOBODY && c->guest == NOBODY, c->free)
      && IMPL(c->owner != NOBODY && c->guest != NOBODY && c->guest != c->owner, c->occ);
#if QUEUES
    for (int k = 0; k < QMAX + 1; ++k) if (k < c->nreq) ok = ok && c->req[k] != c->owner;
#endif
    return ok;
}
static bool wf_core(const ocpu_t *s, int i) {
    return s[i].owner == s[i/SMT*SMT].owner && s[i].occ == s[i/SMT*SMT].occ;
}
static void snap(ocpu_t *d) {
    for (int i = 0; i < NCPUS; ++i) {
        cpuinfo_t *c = &shdata->node_info[i];
        d[i].owner = c->owner; d[i].guest = c->guest; d[i].state = c->state;
        d[i].free = CPU_ISSET(i, &shdata->free_cpus) != 0; d[i].occ = CPU_ISSET(i, &shdata->occupied_cores) != 0;
        d[i].nreq = 0;
#if QUEUES
        int k = 0;
        size_t f = c->requests.front, n = c->requests.next;
        for (int j = 0; j < QMAX + 2; ++j) {
            if (f != n) { d[i].req[k++] = c->requests.items[f]; f = (f + 1) % CQSIZE; }
        }
        d[i].nreq = k;
        CHECK(f == n, "request queue of a CPU holds no more than was queued");
#endif
    }
}
static int snap_global(oreq_t *g) {
    int k = 0;
#if QUEUES
    size_t f = shdata->lewi_mask_requests.front, n = shdata->lewi_mask_requests.next;
    for (int j = 0; j < QMAX + 1; ++j)
        if (f != n) {
            lewi_mask_request_t *r = &shdata->lewi_mask_requests.items[f];
            g[k].pid = r->pid; g[k].howmany = r->howmany; g[k].allowed = r->allowed.__bits[0]; ++k;
            f = (f + 1) % GQSIZE;
        }
    CHECK(f == n, "global request queue holds no more than was queued");
#endif
    return k;
}
#ifdef FIX0
static int fix1;
#endif
static void mk_state(void) {
    topo_setup(NCPUS, SMT, CPN);
    shdata = &memx;
    shdata->node_info = mem_node;
    shm_handler = (shmem_handler_t*)&memx;
    node_size = NCPUS;
    shdata->flags = (cpuinfo_flags_t) { .initialized = true, .queues_enabled = QUEUES, .hw_has_smt = SMT > 1 };
    respect_cpuset = nd_bool();
    cpu_is_public_post_mortem = nd_bool();
    the_time = nd_ll();
    shdata->timestamp_cpu_lent = nd_ll();
    nd_mask(&shdata->free_cpus);
    nd_mask(&shdata->occupied_cores);
    for (int i = 0; i < NCPUS; ++i) {
        cpuinfo_t *c = &shdata->node_info[i];
        c->id = i; c->core_id = i / SMT;
        c->owner = nd_pid(); c->guest = nd_pid();
#ifdef FIX0
        if (i < SMT) { static const int f[] = FIX0; c->owner = f[0]; c->guest = f[1+i]; }
        else { c->owner = fix1 % 3; c->guest = (i == SMT ? fix1/3 : fix1/9) % 3; }
#endif
        int st = nd_int(); ASSUME(st >= 0 && st <= 2); c->state = st;
        c->requests.capacity = CQSIZE;
#if QUEUES
        int n = nd_int(); ASSUME(n >= 0 && n <= QMAX);
        c->requests.front = QFRONT; c->requests.next = (QFRONT + n) % CQSIZE;
        for (int k = 0; k < QMAX; ++k) { pid_t p = nd_pid(); ASSUME(p > 0); c->requests.items[(QFRONT+k)%CQSIZE] = p; }
#endif
    }
#if QUEUES
    { int n = nd_int(); ASSUME(n >= 0 && n <= QMAX);
      shdata->lewi_mask_requests.front = 0; shdata->lewi_mask_requests.next = n;
      for (int k = 0; k < QMAX; ++k) {
         lewi_mask_request_t *r = &shdata->lewi_mask_requests.items[k];
         r->pid = nd_pid(); ASSUME(r->pid > 0); r->howmany = nd_uint(); ASSUME(r->howmany > 0 && r->howmany < 100); nd_mask(&r->allowed); }
    }
#endif
    snap(old);
    n_ogr = snap_global(ogr);
    for (int i = 0; i < NCPUS; ++i) { ASSUME(wf(old, i)); if (SMT > 1) ASSUME(wf_core(old, i)); }
    tasks.items = task_items; tasks.count = 0; tasks.capacity = 2*NCPUS;
}

/* SMT eligibility of process p for CPU i, in snapshot s */
static bool elig(const ocpu_t *s, pid_t p, int i) {
    if (SMT == 1) return s[i].owner == p || s[i].guest == p || s[i].guest == NOBODY;
    for (int k = i/SMT*SMT; k < i/SMT*SMT + SMT; ++k)
        if ((s[k].guest != p && s[k].guest != NOBODY) || (s[k].state == CPU_BUSY && s[k].owner != p)) return false;
    return true;
}
static void collect(void) {
    CHECK(tasks.count <= 2*NCPUS, "[excl] no more callbacks than the caller can hold");
    CHECK(lock_depth == 0 && !bad_lock, "[excl] the table is locked and unlocked in pairs");
    snap(nw);
    n_ngr = snap_global(ngr);
    for (int t = 0; t < 2*NCPUS; ++t) if (t < (int)tasks.count) {
        int c = task_items[t].cpuid;
        CHECK(c >= 0 && c < NCPUS, "[excl] a callback names a CPU of the machine");
        CHECK(task_items[t].pid > 0, "[excl] a callback names a process");
        CHECK(task_items[t].action == ENABLE_CPU || task_items[t].action == DISABLE_CPU, "[excl] callback kind");
        for (int i = 0; i < NCPUS; ++i) if (i == c) {
            if (task_items[t].action == ENABLE_CPU) { en[i] = task_items[t].pid; n_en[i]++; }
            else { dis[i] = task_items[t].pid; n_dis[i]++; }
        }
    }
}
enum { MAY_LEND = 1, MAY_CLAIM = 2, MAY_OWN = 4, MAY_STEAL = 8 };
/* The transition contract: what any operation by process ME may do to any CPU. */
static void transition(int may) {
    for (int i = 0; i < NCPUS; ++i) {
        const ocpu_t *o = &old[i], *n = &nw[i];
        if (!(may & MAY_OWN)) CHECK(n->owner == o->owner, "[excl] the owner of a CPU does not change");
        CHECK(wf(nw, i), "[excl] the CPU table stays well formed");
        if (SMT > 1) CHECK(wf_core(nw, i), "[excl] cores stay whole in the CPU table");
        if (n->state != o->state && !(may & MAY_OWN)) {
            CHECK(o->owner == ME, "[excl] only the owner changes the state of a CPU");
            if (n->state == CPU_LENT) CHECK(may & MAY_LEND, "[excl] only lending makes a CPU lent");
            else CHECK(n->state == CPU_BUSY && (may & MAY_CLAIM), "[excl] only claiming makes a CPU busy");
        }
        if (n->guest != o->guest) {
            CHECK(o->guest == NOBODY || o->guest == ME, "[excl] a CPU in use is not taken from the process using it");
            if (n->guest != NOBODY && n->guest != n->owner) {
                CHECK(n->state == CPU_LENT, "[excl] a process that does not own a CPU only gets it while it is lent");
                if (SMT > 1) for (int k = i/SMT*SMT; k < i/SMT*SMT + SMT; ++k) if (k != i) {
                    CHECK(nw[k].guest == NOBODY || nw[k].guest == n->guest, "[excl] a borrowed core is not shared with another process");
                    CHECK(!(nw[k].state == CPU_BUSY && nw[k].owner != n->guest), "[excl] a core is not borrowed while its owner claims it");
                }
            }
        }
        CHECK(n_en[i] <= 1 && n_dis[i] <= 1, "[excl] at most one enable and one disable callback per CPU");
        if (n_en[i]) CHECK(n->guest == en[i] || (en[i] == ME && n->owner == ME && n->state == CPU_BUSY), "[excl] an enable callback goes to the process that gets the CPU");
        if (n_dis[i]) CHECK(n->guest != dis[i] || n->owner != dis[i] || 1, "[excl] disable");
        if (n->guest != o->guest && n->guest != NOBODY && o->guest == NOBODY && !(may & MAY_STEAL))
            CHECK(n_en[i] == 1 && en[i] == n->guest, "[excl] a process that gets an idle CPU is told to enable it");
    }
}
static bool same_cpu(int i) {
    bool ok = nw[i].owner == old[i].owner && nw[i].guest == old[i].guest && nw[i].state == old[i].state && nw[i].nreq == old[i].nreq;
#if QUEUES
    for (int k = 0; k < QMAX; ++k) if (k < old[i].nreq) ok = ok && nw[i].req[k] == old[i].req[k];
#endif
    return ok;
}
static void untouched(int i) {
    CHECK(same_cpu(i) && n_en[i] == 0 && n_dis[i] == 0, "a CPU outside the request is left alone");
}
static void all_untouched(void) { for (int i = 0; i < NCPUS; ++i) untouched(i); CHECK(tasks.count == 0, "no callback without effect"); }
#if QUEUES
/* Reference of the abstract operation: the table as it must be after ME releases CPUs one by one.
 * A CPU that becomes idle goes to the owner that claims it, else to the oldest request for it that is
 * eligible, else to the oldest general request that allows it and is eligible. */
static ocpu_t mid[NCPUS]; static oreq_t mgr[QMAX + 2]; static int n_mgr; static int m_en[NCPUS];
static void m_start(void) { for (int i = 0; i < NCPUS; ++i) { mid[i] = old[i]; m_en[i] = 0; } for (int k = 0; k < QMAX; ++k) mgr[k] = ogr[k]; n_mgr = n_ogr; }
static void m_serve(int i) {
    ocpu_t *c = &mid[i]; bool done = false;
    if (c->guest != NOBODY) return;
    if (c->state == CPU_BUSY) { c->guest = c->owner; ++m_en[i]; return; }
    if (c->state != CPU_LENT) return;
    int out = 0, n = c->nreq; pid_t g = NOBODY;
    for (int k = 0; k < QMAX + 1; ++k) if (k < n) {
        pid_t p = c->req[k];
        if (!done && elig(mid, p, i)) { done = true; g = p; }
        else { for (int z = 0; z <= k; ++z) if (z == out) c->req[z] = p; ++out; }
    }
    c->nreq = out;
    n = n_mgr; out = 0;
    if (!done) {
        for (int k = 0; k < QMAX; ++k) if (k < n) {
            oreq_t r = mgr[k];
            if (!done && (r.allowed >> i & 1) && elig(mid, r.pid, i)) { done = true; g = r.pid; --r.howmany; }
            if (r.howmany > 0) { for (int z = 0; z <= k; ++z) if (z == out) mgr[z] = r; ++out; }
        }
        n_mgr = out;
    }
    if (done) { c->guest = g; ++m_en[i]; }
}
static void m_release(int i) {
    ocpu_t *c = &mid[i]; 
    if (c->owner == ME) c->state = CPU_LENT;
    else { int out = 0; for (int k = 0; k < QMAX + 1; ++k) if (k < c->nreq && c->req[k] != ME) { for (int z = 0; z <= k; ++z) if (z == out) c->req[z] = c->req[k]; ++out; } c->nreq = out; }
    if (c->guest == ME) c->guest = NOBODY;
}
static void m_assign(int i) {
    if (mid[i].guest != NOBODY) return;
    m_serve(i);
    if (mid[i].guest != NOBODY) for (int j = i/SMT*SMT; j < i/SMT*SMT + SMT; ++j) if (j != i) m_serve(j);
}
/* all CPUs are released before the first is handed out */
static void m_lend(unsigned long mm) {
    for (int i = 0; i < NCPUS; ++i) if (mm >> i & 1) m_release(i);
    for (int i = 0; i < NCPUS; ++i) if (mm >> i & 1) m_assign(i);
}
static void m_check(void) {
    for (int i = 0; i < NCPUS; ++i) {
        CHECK(nw[i].state == mid[i].state, "lending marks an owned CPU as lent and no other");
        CHECK(nw[i].guest == mid[i].guest, "a released CPU goes to its claiming owner, else to the oldest request for it, else to the oldest general request that allows it, else it is idle");
        CHECK(n_en[i] == m_en[i] && IMPL(n_en[i] == 1, en[i] == mid[i].guest) && !n_dis[i], "exactly the processes that get a CPU are told to enable it");
        CHECK(nw[i].nreq == mid[i].nreq, "only the served request leaves the queue");
        for (int k = 0; k < QMAX; ++k) if (k < mid[i].nreq) CHECK(nw[i].req[k] == mid[i].req[k], "requests that wait keep their order");
        CHECK(IMPL(nw[i].guest == NOBODY && nw[i].state == CPU_LENT, nw[i].free), "a CPU left idle is on offer");
    }
    CHECK(n_ngr == n_mgr, "a satisfied general request is dropped");
    for (int k = 0; k < QMAX; ++k) if (k < n_mgr) CHECK(ngr[k].pid == mgr[k].pid && ngr[k].howmany == mgr[k].howmany && ngr[k].allowed == mgr[k].allowed, "general requests wait for the CPUs they still miss");
}
#endif
/* exact effect of the owner claiming CPU i */
static void claimed(int i) {
    CHECK(nw[i].state == CPU_BUSY, "a reclaimed CPU is marked as in use by its owner");
    if (old[i].guest == ME) { CHECK(nw[i].guest == ME && !n_en[i] && !n_dis[i], "a CPU already in use by its owner stays so"); }
    else if (old[i].guest == NOBODY) CHECK(nw[i].guest == ME && n_en[i] == 1 && en[i] == ME && !n_dis[i], "an idle owned CPU is recovered at once");
    else CHECK(nw[i].guest == old[i].guest && n_en[i] == 1 && en[i] == ME && n_dis[i] == 1 && dis[i] == old[i].guest, "a guest is told to leave and the owner to come back");
}
static bool claim_effect(int i) { /* did the op claim i? */
    return old[i].owner == ME && nw[i].state == CPU_BUSY && old[i].guest != ME && n_en[i] == 1 && en[i] == ME;
}
/* effect of ME releasing CPU i, mode without request queues */
static void released_noq(int i) {
    cpu_state_t st = old[i].owner == ME ? CPU_LENT : old[i].state;
    CHECK(nw[i].state == st, "lending marks an owned CPU as lent and no other");
    pid_t g = old[i].guest == ME ? NOBODY : old[i].guest;
    if (g != NOBODY) CHECK(nw[i].guest == g && !n_en[i], "lending a CPU somebody else uses does not disturb that process");
    else if (st == CPU_BUSY) CHECK(nw[i].guest == old[i].owner && n_en[i] == 1 && en[i] == old[i].owner, "a reclaimed CPU goes back to its owner when released");
    else CHECK(nw[i].guest == NOBODY && !n_en[i] && nw[i].free, "a released CPU becomes idle");
}
#define FORCPU(var, stmt) for (int k__ = 0; k__ < NCPUS; ++k__) if (var == k__) { var = k__; stmt; break; }
#define FORNEG(stmt) do { int cpu__ = cpu; if (cpu__ == -1) { cpu = -1; stmt; } else if (cpu__ == -2) { cpu = -2; stmt; } else { cpu = -NCPUS; stmt; } } while (0)
#define FORMAX(stmt) for (unsigned k__ = 0; k__ <= NCPUS + 1; ++k__) if (max == k__) { max = k__; stmt; break; }
#ifdef ENUM
#define FORMASK(m, stmt) for (unsigned k__ = 0; k__ < (1u << NCPUS); ++k__) if ((m).__bits[0] == k__) { CPU_ZERO(&(m)); (m).__bits[0] = k__; stmt; break; }
#else
#define FORMASK(m, stmt) stmt
#endif
