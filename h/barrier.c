/* Node barriers: shared table (shmem_barrier.c) under the per-process bookkeeping (node_barrier.c). */
#include "verif.h"
#include <pthread.h>
#include <time.h>
/* pthread objects with their contract state */
typedef struct { int live; unsigned n; } vbar; typedef struct { int live; int held; int readers; } vrw;
#define pthread_barrier_t vbar
#define pthread_rwlock_t vrw
static int table_lock; static int n_wait; static unsigned wait_n;
static bool busy; /* some other process is inside */
static int v_bar_init(vbar *b, const void *a, unsigned n) { CHECK(!b->live, "[sync] a barrier is not created twice"); CHECK(n > 0, "[sync] a barrier has participants"); b->live = 1; b->n = n; return 0; }
static int v_bar_destroy(vbar *b) { CHECK(b->live, "[sync] only existing barriers are removed"); b->live = 0; return 0; }
static int v_rw_init(vrw *l, const void *a) { CHECK(table_lock, "[sync] a barrier appears under the table lock"); l->live = 1; l->held = 0; return 0; }
static int v_rw_destroy(vrw *l) { CHECK(l->held == 0, "[sync] unused lock"); l->live = 0; return 0; }
static int v_rw_wrlock(vrw *l) { CHECK(l->held == 0, "[sync] no self deadlock"); l->held = 1; return 0; }
static int v_rw_rdlock(vrw *l) { CHECK(l->held != 1, "[sync] no self deadlock"); l->held = 2; ++l->readers; return 0; }
static int v_rw_timedwrlock(vrw *l, const void *t) { return v_rw_wrlock(l); }
static int v_rw_trywrlock(vrw *l) { return nd_bool() ? 16 : v_rw_wrlock(l); }
static int v_rw_unlock(vrw *l);
static int v_bar_wait(vbar *b);
static int v_ok(void *a) { return 0; }
static int v_ok2(void *a, int x) { CHECK(x == PTHREAD_PROCESS_SHARED, "[sync] shared between processes"); return 0; }
#define pthread_barrier_init v_bar_init
#define pthread_barrier_destroy v_bar_destroy
#define pthread_barrier_wait v_bar_wait
#define pthread_rwlock_init v_rw_init
#define pthread_rwlock_destroy v_rw_destroy
#define pthread_rwlock_wrlock v_rw_wrlock
#define pthread_rwlock_rdlock v_rw_rdlock
#define pthread_rwlock_timedwrlock v_rw_timedwrlock
#define pthread_rwlock_trywrlock v_rw_trywrlock
#define pthread_rwlock_unlock v_rw_unlock
#define pthread_rwlockattr_init(a) v_ok(a)
#define pthread_rwlockattr_destroy(a) v_ok(a)
#define pthread_rwlockattr_setpshared(a, x) v_ok2(a, x)
#define pthread_barrierattr_init(a) v_ok(a)
#define pthread_barrierattr_destroy(a) v_ok(a)
#define pthread_barrierattr_setpshared(a, x) v_ok2(a, x)
static int mlock; static int v_ml(pthread_mutex_t *m) { CHECK(!mlock, "[sync] no self deadlock"); mlock = 1; return 0; } static int v_mu(pthread_mutex_t *m) { mlock = 0; return 0; }
#define pthread_mutex_lock v_ml
#define pthread_mutex_unlock v_mu
#include <stdarg.h>
static int v_snprintf(char *d, size_t sz, const char *f, ...) { va_list a; va_start(a, f); size_t n = 0; if (f[0] == '%') { const char *s = va_arg(a, const char*); for (; s[n]; ++n) if (n + 1 < sz) d[n] = s[n]; if (sz) d[n < sz ? n : sz - 1] = 0; }
  else { d[0] = 'd'; d[1] = 'e'; d[2] = 'f'; d[3] = '0' + (va_arg(a, int) & 7); d[4] = 0; n = 4; } va_end(a); return n; }
#define snprintf v_snprintf
#define sprintf(d, ...) v_snprintf(d, BARRIER_NAME_MAX, __VA_ARGS__)
static char *v_strtok_r(char *s, const char *d, char **end) { if (!s) s = *end; while (*s == *d) ++s; if (!*s) { *end = s; return 0; } char *b = s; while (*s && *s != *d) ++s; if (*s) *s++ = 0; *end = s; return b; }
#define strtok_r v_strtok_r
#ifdef OP_SELECT
static char copy_buf[12]; static int copies; static void *v_malloc(size_t n) { CHECK(n <= 10, "room for the copy"); ++copies; return copy_buf; } static void v_free(void *p) { CHECK(p == copy_buf, "the copy is freed"); --copies; }
#define free v_free
#define malloc v_malloc
#endif
static void v_memmove(void **d, void **s, size_t n) { CHECK(n % sizeof(void*) == 0, "whole entries"); for (size_t i = 0; i < 3 && i < n / sizeof(void*); ++i) d[i] = s[i]; CHECK(n / sizeof(void*) <= 3, "within the list"); }
#define memmove(d, s, n) v_memmove((void**)(d), (void**)(s), n)
#include "shmem_barrier.c"
#include "node_barrier.c"
#undef malloc
#undef free
enum { NS = 3 };
static barrier_t slots[NS]; static shdata_t mem;
static int mu_size = NS; int mu_get_system_size(void) { return mu_size; }
static int opened, closed; shmem_handler_t *shmem_init(void **p, const shmem_props_t *pr) { ++opened; *p = &mem; return (shmem_handler_t*)&mem; }
void shmem_finalize(shmem_handler_t *h, bool (*f)(void)) { ++closed; }
bool shmem_exists(const char *n, const char *k) { return nd_bool(); }
void shmem_lock(shmem_handler_t *h) { CHECK(!table_lock, "[sync] no self deadlock"); table_lock = 1; } void shmem_unlock(shmem_handler_t *h) { CHECK(table_lock, "[sync] lock held"); table_lock = 0; }
void get_time_real(struct timespec *t) { t->tv_sec = 0; t->tv_nsec = 0; }
static int n_into, n_out, seq_bad; static sync_call_flags_t sf;
void into_sync_call(sync_call_flags_t f) { sf = f; ++n_into; if (n_wait) seq_bad = 1; } void out_of_sync_call(sync_call_flags_t f) { ++n_out; if (!n_wait) seq_bad = 1; }
static int v_rw_unlock(vrw *l) {
    CHECK(l->held, "[sync] lock held");
    for (int i = 0; i < NS; ++i) if (&slots[i].rwlock == l && l->held == 1) CHECK(slots[i].participants == 0 || (slots[i].barrier.live && slots[i].barrier.n == slots[i].participants), "a barrier opens when exactly its participants have arrived");
    if (l->held == 2 && --l->readers > 0) return 0;
    l->held = 0; return 0;
}
static void others(void);
static int v_bar_wait(vbar *b) {
    for (int i = 0; i < NS; ++i) if (&slots[i].barrier == b) { CHECK(slots[i].rwlock.held == 2, "the number of participants does not change while processes wait"); CHECK(b->live && b->n == slots[i].participants, "all participants are waited for"); }
    CHECK(!table_lock && !mlock, "no lock is held while waiting"); ++n_wait; wait_n = b->n; others(); return 0;
}
static const char *NM[4] = { "default", "aa", "bb", "def3" };
static void setname(char *d, int k) { for (int j = 0; j < 8; ++j) { d[j] = NM[k][j]; if (!NM[k][j]) break; } }
static bool eqn(const char *a, const char *b) { for (int j = 0; j < 8; ++j) { if (a[j] != b[j]) return 0; if (!a[j]) return 1; } return 0; }
static int sname[NS]; static barrier_t was[NS];
static bool used(barrier_t *b) { return b->participants > 0; }
static void table(void) {
    mem.barriers = slots; shdata = &mem; shm_handler = (shmem_handler_t*)&mem; max_barriers = NS;
    for (int i = 0; i < NS; ++i) { slots[i] = (barrier_t){0}; sname[i] = -1;
        if (nd_bool()) { sname[i] = nd_uint() & 3; setname(slots[i].name, sname[i]); slots[i].flags.initialized = 1; slots[i].flags.lewi = nd_bool(); slots[i].participants = nd_range(1, 1000); slots[i].ntimes = nd_uint() & 1023; slots[i].count = 0;
            slots[i].barrier.live = 1; slots[i].barrier.n = slots[i].participants; slots[i].rwlock.live = 1; }
        for (int j = 0; j < i; ++j) ASSUME(sname[i] < 0 || sname[i] != sname[j]); }
    for (int i = 0; i < NS; ++i) was[i] = slots[i];
}
static bool same(int i) { return slots[i].participants == was[i].participants && slots[i].flags.initialized == was[i].flags.initialized && slots[i].flags.lewi == was[i].flags.lewi && slots[i].name[0] == was[i].name[0] && slots[i].count == was[i].count && slots[i].ntimes == was[i].ntimes && slots[i].barrier.live == was[i].barrier.live && slots[i].barrier.n == was[i].barrier.n; }
static void wf(void) {
    for (int i = 0; i < NS; ++i) {
        if (used(&slots[i])) CHECK(slots[i].flags.initialized && slots[i].barrier.live && slots[i].barrier.n == slots[i].participants && slots[i].rwlock.held == 0, "[inv] a used place waits for its participants");
        else CHECK(!slots[i].flags.initialized && slots[i].participants == 0 && !slots[i].barrier.live, "[inv] a place is free once nobody takes part");
        for (int j = 0; j < i; ++j) CHECK(!used(&slots[i]) || !used(&slots[j]) || !eqn(slots[i].name, slots[j].name), "[inv] one place per name");
    }
    CHECK(!table_lock && !mlock, "[sync] locks are released");
}
/* a place changed by d participants, everything else unchanged */
static void changed(int k, int d) {
    for (int i = 0; i < NS; ++i) { if (i != k) { CHECK(same(i), "other barriers stay as they are"); continue; }
        CHECK(slots[i].participants == was[i].participants + d, "the number of participants follows"); if (was[i].participants && slots[i].participants) CHECK(slots[i].flags.lewi == was[i].flags.lewi && eqn(slots[i].name, was[i].name) && slots[i].ntimes == was[i].ntimes, "name and mode stay"); }
    wf();
}
static int place(int k) { for (int i = 0; i < NS; ++i) if (sname[i] == k) return i; return -1; }
static int freep(void) { for (int i = 0; i < NS; ++i) if (sname[i] < 0) return i; return -1; }
static subprocess_descriptor_t spd; static barrier_info_t binfo; static barrier_t *list[NS]; static int nlist;
static void process(void) {
    spd.options.barrier = 1; spd.options.lewi_barrier = nd_bool(); spd.options.barrier_id = 0; const char *sel[3] = { "", "aa", "bb,default" }; 
#ifndef SEL
#define SEL 0
#endif
    int w = SEL; for (int j = 0; j < 12; ++j) { spd.options.lewi_barrier_select[j] = sel[w][j]; if (!sel[w][j]) break; }
    spd.barrier_info = &binfo; setname(binfo.default_barrier_name, 0); binfo.max_barriers = NS; binfo.barrier_list = list;
    int dp = place(0); binfo.default_barrier = dp >= 0 && nd_bool() ? &slots[dp] : 0;
    nlist = nd_range(0, NS); int used_by = 0;
    for (int i = 0; i < NS; ++i) list[i] = 0;
    for (int i = 0; i < nlist; ++i) { int k = nd_range(0, NS - 1); ASSUME(used(&slots[k]) && &slots[k] != binfo.default_barrier && sname[k] != 0); list[i] = &slots[k]; for (int j = 0; j < i; ++j) ASSUME(list[j] != list[i]); }
}
static bool listed(barrier_t *b) { for (int i = 0; i < NS; ++i) if (list[i] && list[i] == b) return 1; return 0; }
static int len(void) { int n = 0; bool gap = 0; for (int i = 0; i < NS; ++i) { if (list[i]) { CHECK(!gap, "[list] no gaps"); ++n; } else gap = 1; for (int j = 0; j < i; ++j) CHECK(!list[i] || list[i] != list[j], "[list] no duplicates"); } return n; }
static bool in_select(int k) { const char *s = spd.options.lewi_barrier_select; return s[0] == 'a' ? k == 1 : s[0] == 'b' ? k == 2 || k == 0 : 0; }

#ifdef OP_ROUNDS
static subprocess_descriptor_t spd2; static barrier_info_t binfo2; static int depth; static int tgt_place;
/* a process waits: the others arrive; the last one may come round again before this one has left */
static void others(void) {
    if (depth) return; depth = 1;
    barrier_t *t = &slots[tgt_place]; bool lw = t->flags.lewi; int i0 = n_into; CHECK(i0 == lw, "the first to arrive lends if the barrier lends");
    t->count = t->participants - 1; /* all but one have arrived */
    unsigned nt = t->ntimes; int w0 = n_wait, o0 = n_out;
    int e = node_barrier(&spd2, t); CHECK(e == DLB_SUCCESS && n_wait == w0 + 1 && n_into == i0 && n_out == o0 && t->ntimes == nt + 1, "the last one to arrive does not lend, and the barrier was completed once");
    int rounds = nd_range(0, 1); if (!rounds) return;
    w0 = n_wait; e = node_barrier(&spd2, t);
    CHECK(e == DLB_SUCCESS && n_wait == w0 + 1, "a process may come round again");
    CHECK(n_into == i0 + lw && n_out == o0 + lw, "the first to arrive in the next round lends its CPUs, even if others have not left the last round yet");
    CHECK(t->ntimes == nt + 1, "a round is completed once, by all participants");
    COVER(lw, "lends in the next round");
}
#else
static void others(void) { }
#endif
int main(void) {
#ifdef OP_SELECT
    char name[3], sel[6], nm[4]; for (int i = 0; i < 2; ++i) name[i] = " ,ab"[nd_uchar() & 3]; name[2] = 0; for (int i = 0; i < 5; ++i) sel[i] = " ,ab"[nd_uchar() & 3]; sel[5] = 0; if (nd_bool()) name[1] = 0;
    ASSUME(name[0] != ',' && name[1] != ','); bool lb = nd_bool(); int fl = nd_uint() & 3;
    bool r = parse_lewi_barrier(name, lb, sel, fl);
    bool found = 0; for (int i = 0; i < 5 && sel[i]; ) { if (sel[i] == ',') { ++i; continue; } int j = 0; bool eq = 1; while (i < 5 && sel[i] && sel[i] != ',') { if (j < 2 ? name[j] != sel[i] : 1) eq = 0; if (j < 2 && !name[j]) eq = 0; ++i; ++j; } if (j < 2 && name[j]) eq = 0; found |= eq; }
    CHECK(r == (fl == DLB_BARRIER_LEWI_ON ? 1 : fl == DLB_BARRIER_LEWI_OFF ? 0 : found), "a named barrier lends as the call says, otherwise as the list of names says");
    char ds[8] = ""; 
    CHECK(parse_lewi_barrier("default", lb, "", fl) == lb, "the default barrier follows its option");
    r = parse_lewi_barrier("default", lb, sel, fl); CHECK(!r, "with a list of names, the default barrier lends only if listed");
    CHECK(parse_lewi_barrier("default", lb, "a,default", fl), "the default barrier lends if listed");
    CHECK(copies == 0, "the copy is freed"); COVER(found, "found"); COVER(!found, "not found");
#else
    table(); process(); int e; unsigned k = nd_uint() % NS; barrier_t *b = &slots[k]; int name = nd_uint() & 3, flags = nd_uint() % 3;
    int p = place(name), f = freep();
#if defined(OP_SHM)
    /* shared table */
    bool lw = nd_bool();
    if (nd_bool()) { shm_handler = nd_bool() ? shm_handler : 0; bool none = !shm_handler;
        barrier_t *r = shmem_barrier__find(NM[name]); CHECK(r == (none || p < 0 ? 0 : &slots[p]), "a barrier is found by its name"); changed(-1, 0); 
        if (none) { CHECK(!shmem_barrier__register(NM[name], lw) && shmem_barrier__attach(b) == DLB_ERR_NOSHMEM && shmem_barrier__detach(b) == DLB_ERR_NOSHMEM, "without shared memory nothing happens"); shmem_barrier__barrier(b); CHECK(n_wait == 0, "without shared memory nothing happens"); changed(-1, 0); }
    } else if (nd_bool()) {
        barrier_t *r = shmem_barrier__register(NM[name], lw);
        if (p >= 0) { CHECK(r == &slots[p], "an existing barrier is joined"); changed(p, 1); }
        else if (f >= 0) { CHECK(r && !used(&was[r - slots]), "a new barrier takes a free place"); int x = r - slots; CHECK(slots[x].participants == 1 && slots[x].flags.lewi == lw && eqn(slots[x].name, NM[name]) && slots[x].count == 0, "a new barrier has one participant"); for (int i = 0; i < NS; ++i) if (i != x) CHECK(same(i), "other barriers stay as they are"); wf(); }
        else { CHECK(!r, "no room"); changed(-1, 0); }
    } else if (nd_bool()) {
        e = shmem_barrier__attach(b);
        if (used(&was[k])) { CHECK(e == was[k].participants + 1, "joining gives the number of participants"); changed(k, 1); } else { CHECK(e == DLB_ERR_PERM, "a barrier without participants cannot be joined"); changed(-1, 0); }
    } else {
        e = shmem_barrier__detach(b);
        if (used(&was[k])) { CHECK(e == was[k].participants - 1, "leaving gives the number of participants left"); changed(k, -1); } else { CHECK(e == DLB_ERR_PERM, "a barrier without participants cannot be left"); changed(-1, 0); }
    }
    CHECK(shmem_barrier__attach(0) == DLB_ERR_UNKNOWN && shmem_barrier__detach(0) == DLB_ERR_UNKNOWN, "no barrier");
    COVER(e > 1, "joined");
#elif defined(OP_CRASH)
    cleanup_shmem(&mem, 77);
    for (int i = 0; i < NS; ++i) { if (!used(&was[i])) CHECK(!used(&slots[i]) && !slots[i].flags.initialized, "a free place stays free when a process dies"); else { CHECK(slots[i].participants <= was[i].participants, "a dead process does not add participants"); CHECK(IFF(used(&slots[i]), slots[i].flags.initialized), "a barrier disappears with its last participant"); } }
    COVER(used(&was[0]), "used"); COVER(!used(&was[0]), "free");
#elif defined(OP_ROUNDS)
    ASSUME(was[k].participants >= 2 && listed(b)); tgt_place = k; spd2.options.barrier = 1; static barrier_t *list2[NS]; list2[0] = b; spd2.barrier_info = &binfo2; binfo2.barrier_list = list2; binfo2.max_barriers = NS;
    e = node_barrier(&spd, b);
    CHECK(e == DLB_SUCCESS && n_into == n_out, "CPUs lent before waiting are recovered afterwards"); CHECK(n_into == slots[k].flags.lewi * (n_wait - 1), "whoever waits for others lends, if the barrier lends");
    COVER(n_wait == 3, "a second round");
#elif defined(OP_WAIT)
    slots[k].count = was[k].count = nd_uint() & 1023; ASSUME(slots[k].count < slots[k].participants || !used(&slots[k])); bool last = was[k].count + 1 == was[k].participants;
    bool ok, dflt = nd_bool(); spd.options.barrier = nd_bool(); barrier_t *arg = dflt ? 0 : b; barrier_t *tgt = dflt ? binfo.default_barrier : b == binfo.default_barrier || listed(b) ? b : 0; int t = tgt ? tgt - slots : 0; last = tgt && tgt->count + 1 == tgt->participants; bool lw = tgt && tgt->flags.lewi;
    e = node_barrier(&spd, arg);
    if (!spd.options.barrier) CHECK(e == DLB_ERR_NOCOMP && n_wait == 0, "barriers are off");
    else if (!tgt) CHECK(e == DLB_NOUPDT && n_wait == 0, "a process that does not take part does not wait");
    else { CHECK(e == DLB_SUCCESS && n_wait == 1 && wait_n == was[t].participants, "the process waits exactly once");
        CHECK(n_into == n_out && n_into <= 1 && !seq_bad, "CPUs lent before waiting are recovered afterwards"); CHECK(n_into == (lw && !last), "a process lends its CPUs while it waits, if the barrier lends; the last one does not wait");
        CHECK(IMPL(n_into, sf.is_dlb_barrier && sf.is_blocking && sf.is_collective && sf.do_lewi), "the wait counts as a blocking call");
        CHECK(slots[t].count == (last ? 0 : was[t].count + 1) && slots[t].ntimes == was[t].ntimes + last && slots[t].participants == was[t].participants, "the barrier can be used again"); }
    wf();
    COVER(n_into, "lends"); COVER(tgt && last && spd.options.barrier, "last"); COVER(!tgt && spd.options.barrier, "not attached");
#elif defined(OP_NODE)
    bool on = spd.options.barrier = nd_bool(); int n0 = nlist; bool was_listed = listed(b), def = binfo.default_barrier != 0; barrier_t *od = binfo.default_barrier; int dp = place(0);
#if OP_NODE == 0
    ASSUME(name != 0);
    barrier_t *r = node_barrier_register(&spd, NM[name], flags);
    if (!on) { CHECK(!r && len() == n0, "barriers are off"); changed(-1, 0); }
    else if (p >= 0 && listed(&slots[p]) && len() == n0) { CHECK(r == &slots[p], "a barrier of the process is found again"); changed(-1, 0); }
    else if (p >= 0) { CHECK(r == &slots[p] && listed(r) && len() == n0 + 1, "the process takes part"); changed(p, 1); }
    else if (f >= 0) { CHECK(r && !used(&was[r - slots]) && listed(r) && len() == n0 + 1 && r->participants == 1 && eqn(r->name, NM[name]) && r->flags.lewi == (flags == DLB_BARRIER_LEWI_ON ? 1 : flags == DLB_BARRIER_LEWI_OFF ? 0 : in_select(name)), "a new barrier with the process in it"); wf(); }
    else { CHECK(!r && len() == n0, "no room"); changed(-1, 0); }
    CHECK(binfo.default_barrier == od && !node_barrier_register(&spd, 0, 0), "the default barrier stays");
    COVER(r && len() > n0, "new");
#elif OP_NODE == 1
    bool d = nd_bool();
    if (d) { e = node_barrier_attach(&spd, 0);
        if (!on) { CHECK(e == DLB_ERR_NOCOMP, "barriers are off"); changed(-1, 0); }
        else if (def) { CHECK(e == DLB_ERR_PERM && binfo.default_barrier == od, "already taking part"); changed(-1, 0); }
        else if (dp >= 0) { CHECK(binfo.default_barrier == &slots[dp], "the process takes part again"); CHECK(e == was[dp].participants + 1, "[count] joining gives the number of participants"); changed(dp, 1); }
        else if (f >= 0) { CHECK(binfo.default_barrier && e == 1, "the process takes part again"); CHECK(binfo.default_barrier->flags.lewi == (spd.options.lewi_barrier_select[0] ? in_select(0) : spd.options.lewi_barrier), "the default barrier lends as configured"); wf(); }
        else { CHECK(e == DLB_ERR_NOMEM && !binfo.default_barrier, "no room"); changed(-1, 0); }
        CHECK(len() == n0, "[list] as before"); }
    else { ASSUME(sname[k] != 0); e = node_barrier_attach(&spd, b);
        if (!on) { CHECK(e == DLB_ERR_NOCOMP && len() == n0, "barriers are off"); changed(-1, 0); }
        else if (was_listed) { CHECK(e == DLB_ERR_PERM && len() == n0, "already taking part"); changed(-1, 0); }
        else if (used(&was[k])) { CHECK(e == was[k].participants + 1 && listed(b) && len() == n0 + 1, "the process takes part"); changed(k, 1); }
        else { CHECK(e == DLB_ERR_PERM && len() == n0, "a barrier without participants cannot be joined"); changed(-1, 0); }
        CHECK(binfo.default_barrier == od, "the default barrier stays"); }
    COVER(e > 1, "joined"); COVER(e < 0, "refused");
#elif OP_NODE == 2
    bool d = nd_bool(); if (d) b = nd_bool() || !od ? 0 : od;
    e = node_barrier_detach(&spd, b);
    if (!on) { CHECK(e == DLB_ERR_NOCOMP && len() == n0, "barriers are off"); changed(-1, 0); }
    else if (d || (od && b == od)) { if (def) { CHECK(e == was[od - slots].participants - 1 && !binfo.default_barrier, "the process leaves"); changed(od - slots, -1); } else { CHECK(e == DLB_ERR_PERM, "not taking part"); changed(-1, 0); } CHECK(len() == n0, "[list] as before"); }
    else if (was_listed) { CHECK(e == was[k].participants - 1 && !listed(b) && len() == n0 - 1, "the process leaves"); changed(k, -1); }
    else { CHECK(e == DLB_ERR_PERM && len() == n0, "not taking part"); changed(-1, 0); }
    COVER(e > 0, "left"); COVER(e == 0, "last"); COVER(e < 0, "refused");
#elif OP_NODE == 3
    barrier_t *l0[NS]; for (int i = 0; i < NS; ++i) l0[i] = list[i];
    barrier_info_t *h = malloc(sizeof *h); *h = binfo; h->barrier_list = calloc(NS, sizeof(void*)); for (int i = 0; i < NS; ++i) h->barrier_list[i] = list[i]; spd.barrier_info = h;
    node_barrier_finalize(&spd);
    CHECK(!spd.barrier_info, "nothing is left");
    for (int i = 0; i < NS; ++i) { bool mine = &slots[i] == od; for (int j = 0; j < NS; ++j) mine |= l0[j] == &slots[i]; if (mine) CHECK(slots[i].participants == was[i].participants - 1, "the process leaves all its barriers"); else CHECK(same(i), "other barriers stay as they are"); }
    wf(); node_barrier_finalize(&spd);
    COVER(n0 == 2, "two");
#elif OP_NODE == 4
    ASSUME(nlist == 0); spd.barrier_info = 0; spd.options.barrier_id = nd_bool() ? 3 : 0; int dn = spd.options.barrier_id ? 3 : 0; p = place(dn);
    node_barrier_init(&spd); barrier_info_t *h = spd.barrier_info;
    CHECK(h && h->max_barriers == NS, "ready"); for (int i = 0; i < NS; ++i) CHECK(!h->barrier_list[i], "no named barriers");
    if (p >= 0) { CHECK(h->default_barrier == &slots[p], "the process joins the default barrier"); changed(p, 1); }
    else if (f >= 0) { CHECK(h->default_barrier && h->default_barrier->participants == 1 && eqn(h->default_barrier->name, NM[dn]), "the default barrier appears"); CHECK(h->default_barrier->flags.lewi == (spd.options.lewi_barrier_select[0] ? in_select(0) : spd.options.lewi_barrier), "the default barrier lends as configured"); wf(); }
    else { CHECK(!h->default_barrier, "no room"); changed(-1, 0); }
    COVER(p >= 0, "join"); COVER(p < 0 && f >= 0, "new");
#endif
#endif
#endif
    return 0;
}
