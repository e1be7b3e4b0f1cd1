/* DROM process table (shmem_procinfo.c): contracts of every operation from an arbitrary well formed table. */
#include "verif.h"
#ifndef NP
#define NP 3     /* slots of the table = CPUs of the machine */
#endif
static FILE *verif_fopen(const char *n, const char *m) { return NULL; } /* the process has no registered ancestor */
#define fopen verif_fopen
static int verif_snprintf(char *b, size_t n, const char *f, ...) { if (b && n) b[0] = 0; return 0; }
#define snprintf verif_snprintf
#include "shmem_procinfo.c"
#include "topo.h"
#define ME 2
#ifdef SHARING
#define COVERX(c, n)
#else
#define COVERX COVER
#endif
#define SYS ((1u << NP) - 1)
#ifndef SYNC
#define SYNC 0
#endif
__thread subprocess_descriptor_t *thread_spd = NULL;
static struct { shdata_t s; char tail[NP * sizeof(pinfo_t)]; } mem;
typedef struct { pid_t pid; bool dirty, pre; unsigned cur, fut, sto; } P_t;
typedef struct { bool init, share, unk; unsigned fre; P_t p[NP]; } T_t;
static T_t old, nw, mid;      /* table before, after, and (reference) as it must be */
static int lock_depth, lock_bad, n_lock, mutex_depth;
static int closed, opened;
static void env_step(void);
void shmem_lock(shmem_handler_t *h) { if (lock_depth) lock_bad = 1; ++lock_depth; ++n_lock; env_step(); }
void shmem_unlock(shmem_handler_t *h) { if (lock_depth != 1) lock_bad = 1; --lock_depth; }
shmem_handler_t *shmem_init(void **p, const shmem_props_t *pr) { ++opened; *p = &mem.s; return (shmem_handler_t*)&mem; }
void shmem_finalize(shmem_handler_t *h, bool (*f)(void)) { ++closed; }
bool shmem_exists(const char *n, const char *k) { return false; }
int pthread_mutex_lock(pthread_mutex_t *m) { ++mutex_depth; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { --mutex_depth; return 0; }
static int ticks;
void get_time(struct timespec *t) { t->tv_sec = 0; t->tv_nsec = 0; }
void get_time_coarse(struct timespec *t) { t->tv_sec = ticks; t->tv_nsec = 0; }
int64_t timespec_diff(const struct timespec *a, const struct timespec *b) { return (int64_t)(b->tv_sec - a->tv_sec) * 1000000000; }
static int n_sleep;
int usleep(__useconds_t us) { ++n_sleep; ticks += (n_sleep >= SYNC ? 5 : 0); return 0; }
static unsigned bits(const cpu_set_t *m) { return (unsigned)m->__bits[0]; }
static void setm(cpu_set_t *m, unsigned b) { CPU_ZERO(m); m->__bits[0] = b; }
static unsigned nd_bits(void) { unsigned char b = nd_uchar(); ASSUME(b <= SYS); return b; }
static pid_t nd_pid(void) { int p = nd_int(); ASSUME(p >= 0 && p <= 4); return p; }
static unsigned own(const P_t *p) { return p->pid == NOBODY ? 0 : p->dirty ? p->fut : p->cur; }
/* Representation invariant: process masks are disjoint and together with the free CPUs they make up the machine */
static bool wf_disjoint(const T_t *t) {
    unsigned u = 0; bool ok = true;
    for (int i = 0; i < NP; ++i) { unsigned o = own(&t->p[i]); ok = ok && !(u & o); u |= o; }
    return ok && !(u & t->fre);
}
static bool wf_total(const T_t *t) {
    unsigned u = t->fre;
    for (int i = 0; i < NP; ++i) u |= own(&t->p[i]);
    return u == SYS;
}
static bool wf_slot(const P_t *p) {
    return p->pid == NOBODY || (IMPL(!p->dirty, p->cur == p->fut) && !(p->sto & own(p)) && !((p->cur | p->fut | p->sto) & ~SYS));
}
static bool wf_ids(const T_t *t) {
    bool ok = true;
    for (int i = 0; i < NP; ++i) for (int j = 0; j < i; ++j) ok = ok && (t->p[i].pid == NOBODY || t->p[i].pid != t->p[j].pid);
    return ok;
}
static void snap(T_t *t) {
    t->init = mem.s.flags.initialized; t->share = mem.s.flags.allow_cpu_sharing; t->unk = mem.s.flags.cpu_sharing_unknown;
    t->fre = bits(&mem.s.free_mask);
    for (int i = 0; i < NP; ++i) {
        const pinfo_t *q = &mem.s.process_info[i]; P_t *p = &t->p[i];
        p->pid = q->pid; p->dirty = q->dirty; p->pre = q->preregistered;
        p->cur = bits(&q->current_process_mask); p->fut = bits(&q->future_process_mask); p->sto = bits(&q->stolen_cpus);
    }
}
static bool same_slot(const P_t *a, const P_t *b) {
    return a->pid == b->pid && (a->pid == NOBODY || (a->dirty == b->dirty && a->pre == b->pre && a->cur == b->cur && a->fut == b->fut && a->sto == b->sto));
}
static bool same_table(const T_t *a, const T_t *b) {
    bool ok = a->fre == b->fre;
    for (int i = 0; i < NP; ++i) ok = ok && same_slot(&a->p[i], &b->p[i]);
    return ok;
}
static bool sharing;
static void mk_state(void) {
    topo_setup(NP, 1, NP);
    max_cpus = max_processes = NP;
#ifdef SHARING
    sharing = true;
#endif
    for (int i = 0; i < NP; ++i) {
        pinfo_t *q = &mem.s.process_info[i];
        q->pid = nd_pid(); q->dirty = nd_bool(); q->preregistered = nd_bool();
        setm(&q->current_process_mask, nd_bits()); setm(&q->future_process_mask, nd_bits()); setm(&q->stolen_cpus, nd_bits());
        q->active_cpus = 0; q->cpu_usage = 0; q->cpu_avg_usage = 0;
#ifdef OP_INIT
        /* an empty slot is clear */
        if (q->pid == NOBODY) { ASSUME(!q->dirty && bits(&q->stolen_cpus) == 0); }
#endif
    }
    setm(&mem.s.free_mask, nd_bits());
    mem.s.flags = (procinfo_flags_t){ .initialized = true, .allow_cpu_sharing = sharing };
    snap(&old);
    ASSUME(wf_ids(&old));
    for (int i = 0; i < NP; ++i) { if (!sharing) ASSUME(wf_slot(&old.p[i])); else ASSUME(IMPL(!old.p[i].dirty, old.p[i].cur == old.p[i].fut)); }
    if (!sharing) ASSUME(wf_disjoint(&old) && wf_total(&old));
    shdata = &mem.s; shm_handler = (shmem_handler_t*)&mem; subprocesses_attached = 1;
    int mine = nd_int(); ASSUME(mine >= -1 && mine < NP);
    my_pinfo = NULL;
    if (mine >= 0) { ASSUME(old.p[mine].pid != NOBODY); for (int k = 0; k < NP; ++k) if (k == mine) my_pinfo = &mem.s.process_info[k]; }
    mid = old;
}
/* other processes while the table is unlocked: each may notice its change, or leave */
static bool in_env, gone, target_gone; static bool env_on; static pid_t target; static unsigned own_now(const pinfo_t *q) { return q->dirty ? bits(&q->future_process_mask) : bits(&q->current_process_mask); } static T_t relocked;
static void env_step(void) {
    if (n_lock < 2 || !env_on || in_env) return;
    for (int i = 0; i < NP; ++i) {
        pinfo_t *q = &mem.s.process_info[i];
        if (q->pid != NOBODY && q->pid != ME && q->dirty && nd_bool()) { q->current_process_mask = q->future_process_mask; q->dirty = false; }
        else if (q->pid != NOBODY && q->pid != ME && nd_bool()) { in_env = true; if (q->pid == target) target_gone = true; mem.s.free_mask.__bits[0] |= own_now(q); *q = (pinfo_t){0}; in_env = false; gone = true; }
    }
    snap(&relocked);
}
static int find(const T_t *t, pid_t pid) { int r = -1; for (int i = NP - 1; i >= 0; --i) if (t->p[i].pid == pid && pid != NOBODY) r = i; return r; }
static void finish(void) {
    snap(&nw);
    CHECK(lock_depth == 0 && !lock_bad, "[inv] the table is locked and unlocked in pairs");
    if (sharing) return;
    CHECK(wf_ids(&nw), "[inv] a process is registered once");
    CHECK(wf_disjoint(&nw), "[inv] no CPU belongs to two processes, or to a process and to nobody");
    CHECK(wf_total(&nw) || !nw.init, "[inv] every CPU of the machine belongs to a process or is free");
    for (int i = 0; i < NP; ++i) CHECK(wf_slot(&nw.p[i]), "[inv] a process without pending change has one mask, and none of its CPUs is recorded as stolen from it");
}
static void unchanged(void) { CHECK(same_table(&old, &nw), "a refused request changes nothing"); }
/* reference: give up mask b of process slot t */
static void m_release(int t, unsigned b, bool ret) {
    for (int c = 0; c < NP; ++c) if (b >> c & 1) {
        bool given = false;
        if (ret) for (int p = 0; p < NP; ++p) if (!given && mid.p[p].pid != NOBODY && (mid.p[p].sto >> c & 1)) {
            given = true; mid.p[p].fut |= 1u << c; mid.p[p].sto &= ~(1u << c); mid.p[p].dirty = true;
        }
        if (!given) mid.fre |= 1u << c;
    }
    if (b) { mid.p[t].fut &= ~b; mid.p[t].dirty = true; }
}
/* reference: change the mask of slot t; returns 0 refused, 1 done, -1 either is allowed (mid is the effect when done) */
static int m_set(int t, unsigned m, bool ret) {
    unsigned cur = mid.p[t].cur, acq = m & mid.fre, ste = m & ~mid.fre & ~cur, rel = cur & ~m;
    unsigned avail = 0, pending = 0;
    for (int p = 0; p < NP; ++p) if (p != t && mid.p[p].pid != NOBODY) { if (mid.p[p].dirty) pending |= mid.p[p].cur; else avail |= mid.p[p].cur; }
    int r = ste & ~avail ? 0 : ste & pending ? -1 : 1;
    for (int p = 0; p < NP; ++p) if (p != t && mid.p[p].pid != NOBODY && !mid.p[p].dirty && (mid.p[p].cur & ste)) {
        mid.p[p].sto |= mid.p[p].cur & ste; mid.p[p].fut = mid.p[p].cur & ~ste; mid.p[p].dirty = true;
    }
    mid.fre &= ~acq;
    if (acq | ste) { mid.p[t].fut |= acq | ste; mid.p[t].sto &= ~(acq | ste); mid.p[t].dirty = true; }
    m_release(t, rel, ret);
    return r;
}
static void matches(void) {
    CHECK(nw.fre == mid.fre, "the free CPUs are exactly those no process has");
    for (int i = 0; i < NP; ++i) {
        CHECK(nw.p[i].pid == mid.p[i].pid, "the registered processes are right");
        if (mid.p[i].pid == NOBODY) continue;
        CHECK(nw.p[i].fut == mid.p[i].fut && nw.p[i].cur == mid.p[i].cur, "every process has exactly its CPUs");
        CHECK(nw.p[i].dirty == mid.p[i].dirty, "a process is told about every change of its mask, and only then");
        CHECK(nw.p[i].sto == mid.p[i].sto, "the CPUs taken from a process are remembered until they come back");
        CHECK(nw.p[i].pre == mid.p[i].pre, "preregistration is right");
    }
}
static int err;

#ifdef OP_SET
static void op(void) {
    pid_t pid = nd_pid(); cpu_set_t m, fr; unsigned mm = nd_bits(); setm(&m, mm); setm(&fr, 0);
    bool ret = nd_bool(), nosync = nd_bool(), wantfree = nd_bool();
    int me = my_pinfo ? (int)(my_pinfo - mem.s.process_info) : -1;
    bool self = my_pinfo && (pid == 0 || pid == my_pinfo->pid);
    int t = pid == 0 ? me : find(&old, pid);
#if SYNC
    /* the caller is not one of the processes waited for; those may notice their change meanwhile */
    env_on = true; target = pid; ASSUME(pid != ME);
#endif
    err = shmem_procinfo__setprocessmask(pid, &m, (ret ? DLB_RETURN_STOLEN : 0) | (nosync ? DLB_NO_SYNC : 0) | (SYNC ? DLB_SYNC_QUERY : 0), wantfree ? &fr : NULL);
    finish();
    if (sharing && t >= 0) { CHECK(err == DLB_ERR_NOCOMP || (err == DLB_ERR_PDIRTY && old.p[t].dirty) || (self && old.p[t].dirty && mm == old.p[t].fut), "masks cannot be changed when CPUs are shared"); if (!self) unchanged(); return; }
    if (t < 0) { CHECK(err == DLB_ERR_NOPROC, "an unknown process is refused"); unchanged(); COVER(1, "unknown"); return; }
    if (old.p[t].dirty && !(self && mm == old.p[t].fut)) { CHECK(err == DLB_ERR_PDIRTY, "a process with a pending change is refused"); unchanged(); COVERX(!self, "dirty"); return; }
#if SYNC
    if (!self) {
        bool kept = true, took = own(&nw.p[t]) == mm;
        unsigned ste = mm & ~old.fre & ~old.p[t].cur, others = 0;
        for (int p = 0; p < NP; ++p) { kept = kept && (own(&nw.p[p]) == own(&old.p[p]) || nw.p[p].pid == NOBODY); if (p != t && nw.p[p].pid != NOBODY) others |= nw.p[p].cur; }
        CHECK(err == DLB_SUCCESS || err == DLB_ERR_PERM || err == DLB_ERR_TIMEOUT || (err == DLB_ERR_NOPROC && target_gone), "result of a blocking change");
        for (int p = 0; p < NP; ++p) CHECK(nw.p[p].pid == old.p[p].pid || nw.p[p].pid == NOBODY, "changing masks registers nobody");
        if (target_gone) { CHECK(err == DLB_ERR_NOPROC || err == DLB_ERR_TIMEOUT, "a change of a process that left meanwhile is not reported as done"); COVER(err == DLB_ERR_NOPROC, "left"); return; }
        if (err == DLB_SUCCESS) { CHECK(took, "the process gets exactly the mask"); CHECK(!nw.p[t].dirty && !(others & ste), "a blocking change waits until all processes have their new mask"); COVER(ste, "waited"); }
        else if (err == DLB_ERR_PERM) unchanged();
        else { CHECK(took || kept, "a change that times out is pending or undone"); COVER(took && !kept, "timeout, pending"); COVER(kept && !took, "timeout, undone"); COVER(gone && nw.fre & ste, "undone, victim gone"); }
        return;
    }
#endif
    int r = 1;
    if (old.p[t].dirty) ; /* same as the pending mask */
    else r = m_set(t, mm, ret);
    if (self && !nosync) { mid.p[t].cur = mid.p[t].fut; mid.p[t].dirty = false; }
    if (r == 0) CHECK(err == DLB_ERR_PERM, "CPUs of a process with a pending change are not taken");
    else if (r == 1) CHECK(err == DLB_SUCCESS, "a mask of CPUs that are free, owned or can be taken is granted");
    else CHECK(err == DLB_SUCCESS || err == DLB_ERR_PERM, "result of setting a mask");
    if (err == DLB_SUCCESS) {
        matches();
        CHECK(own(&nw.p[t]) == mm, "the process gets exactly the mask");
        if (wantfree && !old.p[t].dirty) CHECK(bits(&fr) == (old.p[t].cur & ~mm), "the CPUs given up are reported");
        COVERX(r == -1, "stolen past a pending process"); COVERX(ret && nw.fre != old.fre, "freed"); COVERX((SYNC || !self) && nw.fre == old.fre && mm != old.p[t].cur, "stolen");
    } else unchanged();
    COVERX(self && old.p[t].dirty, "same as pending");
}
#endif

#ifdef OP_GET
static void op(void) {
    pid_t pid = nd_pid(); cpu_set_t m; setm(&m, 0x3f);
    int me = my_pinfo ? (int)(my_pinfo - mem.s.process_info) : -1;
    bool self = my_pinfo && (pid == 0 || pid == my_pinfo->pid);
    int t = pid == 0 ? me : find(&old, pid);
#if SYNC
    env_on = true; target = pid;
#endif
    err = shmem_procinfo__getprocessmask(pid, &m, SYNC ? DLB_SYNC_QUERY : 0);
    finish();
    if (t < 0) { CHECK(err == DLB_ERR_NOPROC, "an unknown process is refused"); unchanged(); return; }
    if (self) { CHECK(err == (old.p[t].dirty ? DLB_NOTED : DLB_SUCCESS) && bits(&m) == own(&old.p[t]), "a process that asks for its own mask gets the new one"); mid.p[t].cur = own(&old.p[t]); mid.p[t].dirty = false; matches(); COVER(old.p[t].dirty, "noted"); return; }
#if !SYNC
    CHECK(err == DLB_SUCCESS && bits(&m) == own(&old.p[t]), "the mask of a process is the one it has or is about to have");
    unchanged(); COVERX(old.p[t].dirty, "dirty");
#else
    if (!old.p[t].dirty) { CHECK(err == DLB_SUCCESS && bits(&m) == old.p[t].cur, "mask of a settled process"); unchanged(); }
    else if (target_gone) { CHECK(err == DLB_ERR_NOPROC || err == DLB_ERR_TIMEOUT, "a process that left meanwhile has no mask"); COVER(err == DLB_ERR_NOPROC, "left"); }
    else if (err == DLB_SUCCESS) { CHECK(!relocked.p[t].dirty && bits(&m) == relocked.p[t].cur && bits(&m) == old.p[t].fut, "a blocking query waits until the process has its new mask"); COVER(1, "waited"); }
    else { CHECK(err == DLB_ERR_TIMEOUT && relocked.p[t].dirty, "a blocking query gives up only if the process does not react"); COVER(1, "timeout"); }
#endif
}
#endif

#ifdef OP_POLL
static void op(void) {
    pid_t pid = nd_pid(); ASSUME(pid > 0); cpu_set_t m; setm(&m, 0x3f); int n = -7; bool want = nd_bool();
    int t = find(&old, pid);
    err = shmem_procinfo__polldrom(pid, want ? &n : NULL, &m);
    finish();
    if (t < 0) { CHECK(err == DLB_ERR_NOPROC, "an unknown process is refused"); unchanged(); }
    else if (!old.p[t].dirty) { CHECK(err == DLB_NOUPDT && bits(&m) == 0x3f && n == -7, "polling without a pending change reports none"); unchanged(); }
    else { CHECK(err == DLB_SUCCESS && bits(&m) == old.p[t].fut && IMPL(want, n == __builtin_popcount(old.p[t].fut)), "polling delivers the pending mask"); mid.p[t].cur = mid.p[t].fut; mid.p[t].dirty = false; matches(); COVER(n == 2, "delivered"); }
}
#endif

#ifdef OP_PREINIT
static void op(void) {
    pid_t pid = nd_pid(); ASSUME(pid > 0); cpu_set_t m; unsigned mm = nd_bits(); setm(&m, mm);
    bool steal = nd_bool(), ret = nd_bool();
    int t = find(&old, pid), e = -1;
    for (int i = NP - 1; i >= 0; --i) if (old.p[i].pid == NOBODY) e = i;
#if SYNC
    env_on = true; target = pid; 
#endif
    err = shmem_procinfo_ext__preinit(pid, &m, (steal ? DLB_STEAL_CPUS : 0) | (ret ? DLB_RETURN_STOLEN : 0) | (SYNC ? DLB_SYNC_QUERY : 0));
    finish();
    if (t >= 0) { CHECK(err == DLB_ERR_INIT, "a process is preregistered only once"); unchanged(); return; }
#if SYNC
    if (target_gone) { CHECK(err == DLB_ERR_NOPROC || err == DLB_ERR_TIMEOUT, "a preregistration that was removed meanwhile is not reported as done"); COVER(err == DLB_ERR_NOPROC, "left"); return; }
#endif
    if (e < 0) { CHECK(err == DLB_ERR_NOMEM, "a full table refuses new processes"); unchanged(); COVER(1, "full"); return; }
    int r = 1;
    mid.p[e] = (P_t){ .pid = pid, .pre = true };
    if (sharing) { r = !steal; if (!r) CHECK(err == DLB_ERR_NOCOMP, "no stealing of shared CPUs"); }
    else if (!steal) { if (mm & ~old.fre) r = 0; else mid.fre &= ~mm; if (r == 0) CHECK(err == DLB_ERR_PERM, "CPUs of other processes are refused"); }
    else { r = m_set(e, mm, ret); if (r == 0) CHECK(err == DLB_ERR_PERM, "CPUs of a process with a pending change are not taken"); }
    mid.p[e].cur = mid.p[e].fut = mm; mid.p[e].dirty = false; mid.p[e].sto = 0;
    if (r == 1 && !SYNC) CHECK(err == DLB_SUCCESS, "free CPUs are granted");
    if (err == DLB_SUCCESS) { 
#if !SYNC
        matches();
#else
        CHECK(own(&nw.p[e]) == mm && nw.p[e].pid == pid, "the process has its mask");
#endif
        COVERX(steal && nw.fre == old.fre && mm, "stolen"); }
#if !SYNC
    else unchanged();
#else
    else if (err == DLB_ERR_TIMEOUT) { for (int p = 0; p < NP; ++p) CHECK(nw.p[p].pid == NOBODY || (nw.p[p].pid == old.p[p].pid && own(&nw.p[p]) == own(&old.p[p])), "when the victims do not react they keep their CPUs"); COVER(1, "timeout"); }
    else CHECK(err == DLB_ERR_PERM, "result of a blocking preregistration");
#endif
}
#endif

#if defined(OP_FINALIZE) || defined(OP_POSTFINALIZE) || defined(OP_CLEANUP)
static void op(void) {
    pid_t pid = nd_pid(); ASSUME(pid > 0); bool ret = nd_bool();
    int t = find(&old, pid);
#ifdef OP_FINALIZE
    subprocesses_attached = 2;
    err = shmem_procinfo__finalize(pid, ret, "k");
    CHECK(subprocesses_attached == (t >= 0 ? 1 : 2), "the shared memory is released with the process");
    CHECK(IMPL(t >= 0, my_pinfo == NULL), "no reference to a table entry that is gone");
#elif defined(OP_POSTFINALIZE)
    err = shmem_procinfo_ext__postfinalize(pid, ret);
#else
    ret = false; cleanup_shmem(&mem, pid); err = t < 0 ? DLB_ERR_NOPROC : 0;
#endif
    finish();
    if (t < 0) { CHECK(err == DLB_ERR_NOPROC, "an unknown process is refused"); if (nw.init) unchanged(); }
    else { CHECK(err == DLB_SUCCESS, "leaving succeeds");
        if (!sharing) m_release(t, own(&old.p[t]), ret);
        mid.p[t].pid = NOBODY;
        bool empty = true; for (int i = 0; i < NP; ++i) empty = empty && mid.p[i].pid == NOBODY;
#ifdef OP_CLEANUP
        CHECK(nw.init == !empty, "the table is reset with the last process");
        if (empty) { for (int i = 0; i < NP; ++i) CHECK(nw.p[i].pid == NOBODY && !nw.p[i].dirty && !nw.p[i].sto, "reset table"); return; }
        if (sharing) mid.fre = nw.fre;
#endif
        matches();
        CHECK(!nw.p[t].dirty && !nw.p[t].pre && !nw.p[t].cur && !nw.p[t].fut && !nw.p[t].sto, "the entry of a process that left is clear");
        
#ifndef OP_CLEANUP
        COVERX(nw.fre == old.fre && own(&old.p[t]) && ret, "returned");
#endif
        COVERX(nw.fre != old.fre, "freed"); }
}
#endif

#ifdef OP_RECOVER
static void op(void) {
    pid_t pid = nd_pid(); ASSUME(pid > 0);
    int t = find(&old, pid);
    err = shmem_procinfo_ext__recover_stolen_cpus(pid);
    finish();
    if (t < 0) { CHECK(err == DLB_ERR_NOPROC, "an unknown process is refused"); unchanged(); }
    else if (!old.p[t].sto) { CHECK(err == DLB_NOUPDT, "nothing to recover"); unchanged(); }
    else { unsigned rec = old.p[t].sto & old.fre;
        CHECK(err == DLB_SUCCESS, "recovering succeeds");
        if (sharing) return;
        if (rec) { mid.p[t].fut |= rec; mid.p[t].sto &= ~rec; mid.fre &= ~rec; mid.p[t].dirty = true; }
        matches(); COVERX(rec && mid.p[t].sto, "some recovered"); }
}
#endif

#ifdef OP_INIT
static void op(void) {
    pid_t pid = nd_pid(), pre = nd_pid(); ASSUME(pid > 0 && pid != pre);
    cpu_set_t m, out; unsigned mm = nd_bits(); setm(&m, mm); setm(&out, 0x3f); bool want = nd_bool(), share = nd_bool(); 
#ifdef SHARING
    want = false;
#endif
    bool fresh = nd_bool();
    if (fresh) { for (int i = 0; i < NP; ++i) { ASSUME(old.p[i].pid == NOBODY); } mem.s.flags = (procinfo_flags_t){0}; setm(&mem.s.free_mask, 0); snap(&old); mid = old; mid.fre = SYS; }
    bool unk = nd_bool(); if (!fresh && unk) { mem.s.flags.cpu_sharing_unknown = true; snap(&old); mid = old; }
    my_pinfo = NULL;
    int t = find(&old, pid), q = find(&old, pre), e = -1, x;
    for (int i = NP - 1; i >= 0; --i) if (old.p[i].pid == NOBODY) e = i;
    if (share) err = shmem_procinfo__init_with_cpu_sharing(pid, pre, &m, "k"); else err = shmem_procinfo__init(pid, pre, &m, want ? &out : NULL, "k");
    shdata = &mem.s;
    bool nocomp = !fresh && !unk && share != sharing;
    sharing = nocomp ? sharing : share;
    if (nocomp) ; else CHECK(mem.s.flags.initialized && mem.s.flags.allow_cpu_sharing == share && !mem.s.flags.cpu_sharing_unknown, "the first process decides whether CPUs are shared");
    if (unk && share != old.share) { /* masks registered before the mode was known */ snap(&nw); CHECK(lock_depth == 0 && !lock_bad, "[inv] lock"); return; }
    finish();
    unsigned eff = 0; bool clash;
    if (nocomp) { CHECK(err == DLB_ERR_NOCOMP, "sharing and not sharing do not mix"); x = -1; }
    else if (t >= 0) { CHECK(err == DLB_ERR_INIT, "a process is registered only once"); x = -1; }
    else if (q < 0) { /* new process */
        clash = !share && (mm & ~(fresh ? SYS : old.fre));
        if (e < 0) { CHECK(err == DLB_ERR_NOMEM, "a full table refuses new processes"); x = -1; }
        else if (clash) { CHECK(err == DLB_ERR_PERM, "CPUs of other processes are refused"); x = -1; COVERX(1, "clash"); }
        else { CHECK(err == DLB_SUCCESS, "free CPUs are granted"); x = e; mid.p[e] = (P_t){ .pid = pid, .cur = mm, .fut = mm }; if (!share) mid.fre &= ~mm; COVER(1, "new"); }
    } else if (!old.p[q].pre) { CHECK(err == DLB_ERR_INIT, "a process that was not preregistered is not inherited"); x = -1; }
    else {
        unsigned pm = own(&old.p[q]), neu = mm & ~pm; clash = !share && (neu & ~old.fre);
        if (mm == 0 || mm == pm) { CHECK(err == DLB_NOTED, "inherit"); x = q; mid.p[q].pid = pid; mid.p[q].pre = false; eff = pm; COVER(1, "inherit"); }
        else if (old.p[q].dirty) { CHECK(err == DLB_ERR_PDIRTY, "a pending change refuses inheritance"); x = -1; }
        else if ((pm & ~mm) && e < 0) { CHECK(err == DLB_ERR_NOMEM, "no room"); x = -1; }
        else if (clash) { CHECK(err == DLB_ERR_PERM, "CPUs of other processes are refused"); x = -1; }
        else { CHECK(err == DLB_NOTED, "inherit in part or with more CPUs"); eff = mm;
            if (!share) mid.fre &= ~neu;
            if (!(pm & ~mm)) { x = q; mid.p[q].pid = pid; mid.p[q].pre = false; mid.p[q].cur = mid.p[q].fut = mm; if (!share) mid.p[q].sto &= ~mm; COVER(1, "expand"); }
            else { x = e; mid.p[e] = (P_t){ .pid = pid, .cur = mm, .fut = mm }; mid.p[q].cur &= ~mm; mid.p[q].fut &= ~mm; COVER(neu != 0, "new spot, expand"); COVER(neu == 0, "subset"); }
        }
    }
    if (x < 0) { mid = old; if (fresh) mid.fre = SYS; }
    if (sharing) { for (int i = 0; i < NP; ++i) mid.p[i].sto = nw.p[i].sto; mid.fre = nw.fre; }
    matches();
    CHECK(opened == 0 && subprocesses_attached == (err < 0 ? 1 : 2), "a refused process does not keep the shared memory open");
    if (x >= 0) { CHECK(my_pinfo == &mem.s.process_info[x], "the process finds its own entry"); if (want && err == DLB_NOTED) CHECK(bits(&out) == eff, "the inherited mask is reported"); }
    if (!(want && err == DLB_NOTED)) CHECK(bits(&out) == 0x3f, "no mask is reported otherwise");
}
#endif

#ifdef OP_LISTS
static pid_t list[NP + 1]; static double dl[NP + 1];
static void op(void) {
    int max = nd_int(), n = -1, which = nd_int(); ASSUME(max >= 0 && max <= NP && which >= 0 && which <= 3);
    for (int i = 0; i <= NP; ++i) { list[i] = -9; dl[i] = -9; }
    for (int i = 0; i < NP; ++i) { mem.s.process_info[i].cpu_usage = i; mem.s.process_info[i].cpu_avg_usage = i; mem.s.process_info[i].active_cpus = i; }
    if (which == 0) CHECK(shmem_procinfo__getpidlist(list, &n, max) == DLB_SUCCESS, "listing succeeds");
    else if (which == 1) shmem_procinfo__getcpuusage_list(dl, &n, max);
    else if (which == 2) shmem_procinfo__getcpuavgusage_list(dl, &n, max);
    else shmem_procinfo__getactivecpus_list(list, &n, max);
    finish(); unchanged();
    int k = 0;
    for (int i = 0; i < NP; ++i) if (old.p[i].pid != NOBODY && k < max) {
        for (int z = 0; z < NP; ++z) if (z == k) CHECK(which == 0 ? list[z] == old.p[i].pid : which == 3 ? list[z] == i : dl[z] == i, "the list has the registered processes in order");
        ++k;
    }
    CHECK(n == k, "number of listed processes");
    for (int z = 0; z <= NP; ++z) if (z >= k) CHECK(list[z] == -9 || which == 1 || which == 2, "nothing is written past the list");
    for (int z = 0; z <= NP; ++z) if (z >= k) CHECK(dl[z] == -9 || which == 0 || which == 3, "nothing is written past the list");
    bool emp = true; for (int i = 0; i < NP; ++i) emp = emp && old.p[i].pid == NOBODY;
    CHECK(is_shmem_empty() == emp, "the table is empty when nobody is registered");
    COVER(max == 1 && n == 1, "limited"); COVER(max == 0, "none wanted");
}
#endif
int main(void) { mk_state(); op(); return 0; }
