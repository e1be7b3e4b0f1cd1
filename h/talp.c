/* TALP monitoring regions: every nanosecond of every thread is credited exactly once to exactly the open regions. */
#include "verif.h"
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
static int reg_held, smp_held, n_reg, n_smp; static pthread_mutex_t *reg_mx, *smp_mx; static void on_reg_lock(void); static void on_smp_unlock(void);
static int v_lock(pthread_mutex_t *m) { CHECK(m == reg_mx || m == smp_mx, "[sync] a lock of this process"); if (m == reg_mx) { CHECK(!reg_held, "[sync] no self deadlock"); reg_held = 1; ++n_reg; on_reg_lock(); } else { CHECK(!smp_held, "[sync] no self deadlock"); smp_held = 1; ++n_smp; } return 0; }
static int v_unlock(pthread_mutex_t *m) { if (m == reg_mx) { CHECK(reg_held, "[sync] lock held"); reg_held = 0; } else { CHECK(smp_held, "[sync] lock held"); on_smp_unlock(); smp_held = 0; } return 0; }
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
static void *v_realloc(void *p, size_t n); static int v_memalign(void **p, size_t a, size_t n);
#define realloc v_realloc
#define posix_memalign v_memalign
#if defined(OP_SELECT) || defined(OP_REGISTER)
static char *v_strtok_r(char *s, const char *d, char **end) { if (!s) s = *end; while (*s == *d) ++s; if (!*s) { *end = s; return 0; } char *b = s; while (*s && *s != *d) ++s; if (*s) *s++ = 0; *end = s; return b; }
#define strtok_r v_strtok_r
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int v_casecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; ++i) { int x = low(a[i]), y = low(b[i]); if (x != y) return x - y; if (!x) break; } return 0; }
#define strcasecmp(a, b) v_casecmp(a, b, 200)
#define strncasecmp v_casecmp
#endif
#ifdef OP_SELECT
static char copy_buf[24]; static int copies; static void *v_malloc(size_t n) { CHECK(n <= 24, "room for the copy"); ++copies; return copy_buf; } static void v_free(void *p) { CHECK(p == copy_buf, "the copy is freed"); --copies; }
#define free v_free
#define malloc v_malloc
#endif
#ifdef OP_REGISTER
static int v_snprintf(char *d, size_t n, const char *f, ...) { CHECK(n == 128, "room for the name"); va_list a; va_start(a, f); if (f[0] == '%') { const char *s = va_arg(a, const char*); size_t i = 0; for (; i < n - 1 && s[i]; ++i) d[i] = s[i]; d[i] = 0; } else { d[0] = 'A'; d[1] = '0' + va_arg(a, int) % 10; d[2] = 0; } va_end(a); return 1; }
#define snprintf v_snprintf
#endif
#define strchr(s, c) __builtin_strchr(s, c)
#include "support/gslist.h"
#include "gslist.c"
#include "DLB_talp.c"
#undef free
#undef malloc
#undef realloc
#ifndef OBS
#define OBS 0
#endif
#ifndef TALP
#define TALP 1
#endif
#if OBS || !TALP
#undef COVER
#define COVER(c, n)
#endif
enum { NT = 3, NR = 3 };
typedef struct { int64_t useful, mpi, in, out, cyc, ins, calls, pars, tasks, last; int state; } snap;
static talp_info_t info_; static subprocess_descriptor_t sp; static talp_sample_t smp[NT]; static talp_sample_t *tab[4]; static dlb_monitor_t R0, R1, R2, was[NR]; static monitor_data_t D0, D1, D2; static dlb_monitor_t *const RP[NR] = { &R0, &R1, &R2 }; static monitor_data_t *const DP[NR] = { &D0, &D1, &D2 };
static snap old[NT]; static int own = -1, G, n0; static bool open0[NR]; static int order[NR], nopen; static bool fresh;
__thread subprocess_descriptor_t *thread_spd; __thread bool thread_is_observer;
static int64_t now; int64_t get_time_in_ns(void);

const char *mu_to_str(const cpu_set_t *m) { return ""; }
static int set_id[NR], n_set; static int64_t set_mpi[NR], set_useful[NR];
int shmem_talp__set_times(int id, int64_t m, int64_t u) { for (int r = 0; r < NR; ++r) if ((*DP[r]).node_shared_id == id) { set_id[r] = 1; set_mpi[r] = m; set_useful[r] = u; } ++n_set; return 0; }
static int n_avg; static float avg_v; int shmem_talp__set_avg_cpus(int id, float a) { ++n_avg; avg_v = a; CHECK(id == DP[G]->node_shared_id, "the global region is shared"); return 0; }
#ifdef PAPI_LIB
static long long pc[2]; static int started_papi; static int64_t read_c, read_i;
int PAPI_reset(int e) { pc[0] = pc[1] = 0; return PAPI_OK; } int PAPI_read(int e, long long *v) { v[0] = pc[0]; v[1] = pc[1]; read_c += pc[0]; read_i += pc[1]; return PAPI_OK; }
char *PAPI_strerror(int e) { return ""; } int PAPI_library_init(int v) { return v; } int PAPI_thread_init(unsigned long (*f)(void)) { return PAPI_OK; } int PAPI_register_thread(void) { return PAPI_OK; } int PAPI_create_eventset(int *e) { *e = 1; return PAPI_OK; } int PAPI_add_events(int e, int *v, int n) { return PAPI_OK; } int PAPI_start(int e) { ++started_papi; pc[0] = pc[1] = 0; return PAPI_OK; } void PAPI_shutdown(void) {}
#endif
static int nrealloc; static void *v_realloc(void *p, size_t n) { if (p == 0 && n0 > 0) return calloc(n, 1); CHECK(n <= sizeof(tab), "one place per thread"); ++nrealloc; return tab; }
static int v_memalign(void **p, size_t a, size_t n) { CHECK(n == sizeof(talp_sample_t) && a == DLB_CACHE_LINE && !fresh && n0 < NT, "one sample per thread"); fresh = 1; *p = &smp[n0]; return 0; }
static int64_t nat(int64_t m) { return nd_ll() & (m - 1); }
#ifdef OP_PARALLEL
#define BIG (1LL << 5)
#define SINCE(n) ((n) - nat(1 << 5))
#define NOW ((1LL << 20) + nat(1 << 5))
#define STEP nat(1 << 5)
#else
#define BIG (1LL << 32)
#define SINCE(n) nd_range(1, n)
#define NOW nd_range(1LL << 33, 1LL << 34)
#define STEP nd_range(0, 1 << 20)
#endif
int64_t get_time_in_ns(void) { int64_t d = STEP; now += d; return now; }
static void on_smp_unlock(void) {
    if (fresh) { talp_sample_t *s = &smp[n0]; bool in = 0; for (int i = 0; i < 4 && i < info_.ncpus; ++i) in |= info_.samples[i] == s;
        if (in) CHECK(s->timers.useful == 0 && s->timers.not_useful_mpi == 0 && s->timers.not_useful_omp_in == 0 && s->timers.not_useful_omp_out == 0 && s->stats.num_mpi_calls == 0 && s->stats.num_omp_parallels == 0 && s->stats.num_omp_tasks == 0 && s->state == disabled && s->last_updated_timestamp <= now && s->last_updated_timestamp > 0, "[sync] other threads never see the record of a new thread before it is set up"); }
}
static void sample(int i) { talp_sample_t *s = &smp[i]; s->timers.useful = nat(BIG); s->timers.not_useful_mpi = nat(BIG); s->timers.not_useful_omp_in = nat(BIG); s->timers.not_useful_omp_out = nat(BIG); s->stats.num_mpi_calls = nat(BIG); s->stats.num_omp_parallels = nat(BIG); s->stats.num_omp_tasks = nat(BIG); s->last_updated_timestamp = SINCE(now); s->state = nd_uint() % 5;
#ifdef PAPI_LIB
    s->counters.cycles = nat(BIG); s->counters.instructions = nat(BIG);
#endif
}
static snap snp(int i) { talp_sample_t *s = &smp[i]; snap o = { s->timers.useful, s->timers.not_useful_mpi, s->timers.not_useful_omp_in, s->timers.not_useful_omp_out, 0, 0, s->stats.num_mpi_calls, s->stats.num_omp_parallels, s->stats.num_omp_tasks, s->last_updated_timestamp, s->state };
#ifdef PAPI_LIB
    o.cyc = s->counters.cycles; o.ins = s->counters.instructions;
#endif
    return o; }
static void world(void) {
    now = NOW; thread_spd = &sp; sp.talp_info = &info_; sp.id = 7; reg_mx = &info_.regions_mutex; smp_mx = &info_.samples_mutex;
    info_.flags.external_profiler = nd_bool(); info_.flags.have_shmem = info_.flags.external_profiler; info_.flags.have_minimal_shmem = nd_bool(); info_.flags.have_openmp = nd_bool(); info_.flags.have_mpi = nd_bool();
#ifdef PAPI_LIB
    info_.flags.papi = nd_bool(); pc[0] = nat(BIG); pc[1] = nat(BIG);
#endif
    n0 = NTH; for (int i = 0; i < n0; ++i) { sample(i); tab[i] = &smp[i]; old[i] = snp(i); } info_.ncpus = n0; info_.samples = 0; if (n0) info_.samples = tab;
    own = OWN; _tls_sample = own >= 0 ? &smp[own] : 0;
    for (int r = 0; r < NR; ++r) { (*DP[r]).id = r + 1; (*DP[r]).node_shared_id = 10 + r; (*DP[r]).flags.enabled = nd_bool(); (*DP[r]).flags.internal = nd_bool(); (*RP[r])._data = &(*DP[r]); (*RP[r]).name = "r"; (*RP[r]).num_cpus = nd_range(0, 8); (*RP[r]).avg_cpus = nd_range(0, 8); (*RP[r]).cycles = nat(BIG); (*RP[r]).instructions = nat(BIG); (*RP[r]).num_measurements = nat(1024); (*RP[r]).num_resets = nat(1024); (*RP[r]).num_mpi_calls = nat(BIG); (*RP[r]).num_omp_parallels = nat(BIG); (*RP[r]).num_omp_tasks = nat(BIG); (*RP[r]).start_time = nd_range(1, now); (*RP[r]).stop_time = nat(BIG); (*RP[r]).elapsed_time = nat(BIG); (*RP[r]).useful_time = nat(BIG); (*RP[r]).mpi_time = nat(BIG); (*RP[r]).omp_load_imbalance_time = nat(BIG); (*RP[r]).omp_scheduling_time = nat(BIG); (*RP[r]).omp_serialization_time = nat(BIG); }
    /* open regions, innermost first */
    nopen = nd_uint() & 3;
#ifdef OP_PARALLEL
    ASSUME(nopen != 2);
#endif
    GSList *l = 0; int64_t mx = 0;
    for (int k = NR - 1; k >= 0; --k) { order[k] = k; if (k < nopen) { ASSUME(DP[k]->flags.enabled && RP[k]->start_time >= mx); mx = RP[k]->start_time; GSList *n = malloc(sizeof(GSList)); n->data = RP[k]; n->next = l; l = n; } }
    G = nd_uint() % NR; info_.monitor = G == 0 ? &R0 : G == 1 ? &R1 : &R2;
    info_.open_regions = l; for (int r = 0; r < NR; ++r) { (*DP[r]).flags.started = open0[r] = r < nopen; was[r] = (*RP[r]); }
}
#define F(f) ((*RP[r]).f == was[r].f)
static bool times_same(int r) { return F(useful_time) && F(mpi_time) && F(omp_load_imbalance_time) && F(omp_scheduling_time) && F(omp_serialization_time) && F(cycles) && F(instructions) && F(num_mpi_calls) && F(num_omp_parallels) && F(num_omp_tasks); }
static bool rest_same(int r) { return F(name) && F(num_measurements) && F(num_resets) && F(avg_cpus) && F(elapsed_time) && F(_data) && F(start_time) && F(stop_time); }
static bool region_same(int r) { return times_same(r) && rest_same(r) && F(num_cpus); }
/* the open regions are ... */
static void opened(const int *o, int n) { GSList *l = info_.open_regions; int m = 0; for (int k = 0; k < NR + 1; ++k) if (l) { if (k < n) CHECK(l->data == &(*RP[o[k]]), "the open regions are exactly those started and not stopped, the last started first"); l = l->next; ++m; } CHECK(m == n && !l, "a region is open exactly once from its start to its stop"); for (int r = 0; r < NR; ++r) { bool in = 0; for (int k = 0; k < n; ++k) in |= o[k] == r; CHECK((*DP[r]).flags.started == in && (*DP[r]).id == r + 1 && (*DP[r]).node_shared_id == 10 + r, "a region knows whether it is open"); } }
/* nothing is lost and nothing counted twice: what a region has gained is what the threads have left behind */
enum { FLUSHED = 1, PART = 2 };
static void credited(int skip, int64_t calls, int64_t pars, int64_t tasks, int what) {
    snap a = { 0 }, t[NT]; int n = n0 + fresh; int64_t cyc = 0, ins = 0;
    for (int i = 0; i < NT; ++i) if (i < n) { t[i] = snp(i); snap *o = &old[i]; if (i == n0) { *o = (snap){ .last = t[i].last, .state = disabled }; } int64_t d = t[i].last - o->last; CHECK(d >= 0 && t[i].last <= now, "time goes forward");
        a.useful += o->useful - t[i].useful + (o->state == useful ? d : 0); a.mpi += o->mpi - t[i].mpi + (o->state == not_useful_mpi ? d : 0); a.out += o->out - t[i].out + (o->state == not_useful_omp_out ? d : 0); a.in += o->in - t[i].in + (o->state == not_useful_omp_in ? d : 0); a.calls += o->calls - t[i].calls; a.pars += o->pars - t[i].pars; a.tasks += o->tasks - t[i].tasks; a.cyc += o->cyc - t[i].cyc; a.ins += o->ins - t[i].ins;
        if (what == FLUSHED) CHECK(t[i].useful == 0 && t[i].mpi == 0 && t[i].out == 0 && t[i].calls == 0 && t[i].pars == 0 && t[i].tasks == 0 && t[i].cyc == 0 && t[i].ins == 0, "nothing from before is left for later regions"); }
#ifdef PAPI_LIB
    a.cyc += read_c; a.ins += read_i;
#endif
    for (int r = 0; r < NR; ++r) if (r != skip) {
        if (!open0[r]) { CHECK(times_same(r), "a closed region gains nothing"); continue; }
        CHECK((*RP[r]).useful_time == was[r].useful_time + a.useful, "[useful time] an open region gains exactly what all threads spent"); CHECK((*RP[r]).mpi_time == was[r].mpi_time + a.mpi, "[MPI time] an open region gains exactly what all threads spent"); CHECK((*RP[r]).omp_serialization_time == was[r].omp_serialization_time + a.out, "[time out of parallel] an open region gains exactly what all threads spent");
        CHECK((*RP[r]).omp_load_imbalance_time + (*RP[r]).omp_scheduling_time == was[r].omp_load_imbalance_time + was[r].omp_scheduling_time + a.in, "[OpenMP time] an open region gains exactly what all threads spent");
        CHECK((*RP[r]).num_mpi_calls == was[r].num_mpi_calls + a.calls + calls && (*RP[r]).num_omp_parallels == was[r].num_omp_parallels + a.pars + pars && (*RP[r]).num_omp_tasks == was[r].num_omp_tasks + a.tasks + tasks, "an open region counts every call, parallel and task once");
        CHECK((*RP[r]).cycles == was[r].cycles + a.cyc && (*RP[r]).instructions == was[r].instructions + a.ins, "an open region counts every cycle and instruction once");
    }
}
static void all_at(int64_t T) { for (int i = 0; i < NT; ++i) if (i < n0 + fresh) CHECK(smp[i].last_updated_timestamp == T, "all threads are accounted for up to the same time"); }
static void cpus(int n, int skip) { for (int r = 0; r < NR; ++r) if (r != skip) { int m = (*RP[r]).num_cpus; CHECK(m == (open0[r] && was[r].num_cpus < n ? n : was[r].num_cpus), "a region remembers the largest number of CPUs"); } }
static void unlocked(void) { CHECK(!reg_held && !smp_held, "[sync] locks are released"); }
static void profiled(void) { for (int r = 0; r < NR; ++r) if (info_.flags.external_profiler && open0[r]) CHECK(set_id[r] && set_mpi[r] == (*RP[r]).mpi_time && set_useful[r] == (*RP[r]).useful_time, "an external profiler sees the new times"); else if (!info_.flags.external_profiler) CHECK(!set_id[r], "times are shared only if asked for"); }
static void on_reg_lock(void);
#if !defined(OP_REGISTER)
static void on_reg_lock(void) {}
#endif
#define SAME "nothing else of the region changes"
#if defined(OP_REGION)
#if OP_REGION == 0
#define COVER0(c, n) COVER(c, n)
#else
#define COVER0(c, n)
#endif
#if OP_REGION == 1
#define COVER1(c, n) COVER(c, n)
#else
#define COVER1(c, n)
#endif
#if OP_REGION == 2
#define COVER2(c, n) COVER(c, n)
#else
#define COVER2(c, n)
#endif
#if OP_REGION == 3
#define COVER3(c, n) COVER(c, n)
#else
#define COVER3(c, n)
#endif
int main(void) {
    world(); int op = OP_REGION; thread_is_observer = OBS; if (OBS) { own = -1; _tls_sample = 0; } int64_t t0 = now; int e; unsigned r = nd_uint() % NR; bool st = open0[r], en = (*DP[r]).flags.enabled; dlb_monitor_t *m = r == G && nd_bool() ? DLB_GLOBAL_REGION : &(*RP[r]);
    if (op == 0) { /* start */
        e = monitoring_region_start(&sp, m);
        if (thread_is_observer) CHECK(e == DLB_ERR_PERM, "a thread that only observes cannot start regions"); else CHECK(e == (!st && en ? DLB_SUCCESS : DLB_NOUPDT), "a region is started unless it is open or excluded");
        if (e == DLB_SUCCESS) { credited(r, 0, 0, 0, FLUSHED); CHECK(times_same(r) && F(name) && F(num_measurements) && F(num_resets) && F(avg_cpus) && F(elapsed_time) && F(_data) && F(num_cpus), SAME); CHECK((*RP[r]).start_time >= t0 && (*RP[r]).start_time <= now && (*RP[r]).stop_time == 0, "a region starts when it is started"); all_at((*RP[r]).start_time); cpus(n0 + fresh, r); profiled();
            int o[NR + 1] = { r, order[0], order[1], order[2] }; opened(o, nopen + 1); CHECK(smp[own >= 0 ? own : n0].state == useful, "the thread that starts a region does useful work"); for (int q = 0; q < NR; ++q) if (q != r) CHECK(F(name) && rest_same(q), "no other region is started"); }
        COVER0(e == DLB_SUCCESS && nopen == 2, "nested"); COVER0(e == DLB_NOUPDT, "not started");
    } else if (op == 1) { /* stop */
        bool last = nd_bool(); int k = -1; if (last) { m = DLB_LAST_OPEN_REGION; if (nopen) { r = order[0]; st = 1; } } for (int i = 0; i < nopen; ++i) if (order[i] == r) k = i;
        e = monitoring_region_stop(&sp, m);
        if (thread_is_observer) CHECK(e == DLB_ERR_PERM, "a thread that only observes cannot stop regions"); else if (last && !nopen) CHECK(e == DLB_ERR_NOENT, "without open regions there is no last one"); else CHECK(e == (st ? DLB_SUCCESS : DLB_NOUPDT), "a region is stopped if it is open");
        if (e == DLB_SUCCESS) { credited(-1, 0, 0, 0, FLUSHED); CHECK(F(name) && F(num_resets) && F(avg_cpus) && F(_data) && F(start_time), SAME); CHECK((*RP[r]).num_measurements == was[r].num_measurements + 1, "every measurement is counted once"); CHECK((*RP[r]).stop_time >= t0 && (*RP[r]).stop_time <= now, "a region stops when it is stopped"); CHECK((*RP[r]).elapsed_time == was[r].elapsed_time + (*RP[r]).stop_time - was[r].start_time, "the time from start to stop has elapsed"); all_at((*RP[r]).stop_time); cpus(n0 + fresh, -1); profiled();
            int o[NR], n = 0; for (int i = 0; i < nopen; ++i) if (i != k) o[n++] = order[i]; opened(o, n); for (int q = 0; q < NR; ++q) if (q != r) CHECK(rest_same(q), "no other region is stopped"); }
        COVER1(e == DLB_SUCCESS && k == 1, "outer"); COVER1(e == DLB_NOUPDT, "not open");
    } else if (op == 2) { /* reset */
        e = monitoring_region_reset(&sp, m); CHECK(e == DLB_SUCCESS, "a region can be reset"); was[r] = (dlb_monitor_t){ .name = was[r].name, .num_resets = was[r].num_resets + 1, ._data = &(*DP[r]) }; CHECK(region_same(r), "a reset clears a region and is counted");
        int o[NR], n = 0; for (int i = 0; i < nopen; ++i) if (order[i] != r) o[n++] = order[i]; opened(o, n); CHECK((*DP[r]).flags.enabled == en, SAME); for (int q = 0; q < NR; ++q) if (q != r) CHECK(region_same(q), "no other region is reset"); for (int i = 0; i < n0; ++i) { snap t = snp(i); CHECK(t.last == old[i].last && t.useful == old[i].useful && t.mpi == old[i].mpi && t.state == old[i].state, "the time of the other regions goes on"); }
        COVER2(st, "open");
    } else { /* update */
        e = monitoring_regions_force_update(&sp); CHECK(e == (thread_is_observer ? DLB_ERR_PERM : DLB_SUCCESS), "regions are updated on request");
        if (e == DLB_SUCCESS) { credited(-1, 0, 0, 0, FLUSHED); if (n0) { all_at(smp[0].last_updated_timestamp); CHECK(smp[0].last_updated_timestamp >= t0, "up to now"); } cpus(n0 + fresh, -1); profiled(); opened(order, nopen); for (int q = 0; q < NR; ++q) CHECK(rest_same(q), SAME); }
        COVER3(e == DLB_SUCCESS && nopen == 3, "all open");
    }
    if (e != DLB_SUCCESS) { for (int q = 0; q < NR; ++q) CHECK(rest_same(q), "[refused] no region changes"); opened(order, nopen); if (thread_is_observer) { for (int q = 0; q < NR; ++q) CHECK(region_same(q), "[refused] no region changes"); CHECK(!fresh, "[refused] observers are not measured"); } else credited(-1, 0, 0, 0, 0); }
    for (int i = 0; i < NT; ++i) if (i < n0 && i != own) CHECK(smp[i].state == (enum talp_sample_state)old[i].state, "what other threads do does not change");
    unlocked(); return 0;
}
#elif defined(OP_EVENT)
static omptool_parallel_data_t pd;
int main(void) {
    world(); int ev = OP_EVENT; int64_t t0 = now; bool blk = nd_bool(); int me = own >= 0 ? own : n0; int64_t calls = 0, pars = 0, tasks = 0; int want = own >= 0 ? old[own].state : disabled; bool upd = 1, agg = 0;
    { thread_is_observer = OBS; if (OBS) { own = -1; _tls_sample = 0; } }
    bool talp = TALP; if (!talp) sp.talp_info = 0;
    pd.level = 1; talp_sample_t *team[4] = { 0 }; pd.talp_parallel_data = team; pd.requested_parallelism = 4; unsigned ix = nd_uint() & 3;
    if (ev == 0) { talp_into_sync_call(&sp, blk); want = not_useful_mpi; agg = info_.flags.external_profiler && blk; }
    else if (ev == 1) { talp_out_of_sync_call(&sp, blk); want = useful; calls = 1; agg = info_.flags.external_profiler && blk; }
    else if (ev == 2) { talp_openmp_thread_end(); want = disabled; }
    else if (ev == 3) { talp_openmp_into_parallel_function(&pd, ix); want = useful; if (talp) for (unsigned i = 0; i < 4; ++i) CHECK(team[i] == (i == ix ? &smp[me] : 0), "the thread takes its place in the team"); }
    else if (ev == 4) { talp_openmp_into_parallel_implicit_barrier(&pd); want = not_useful_omp_in; }
    else if (ev == 5) { talp_openmp_into_parallel_sync(&pd); want = not_useful_omp_in; }
    else if (ev == 6) { talp_openmp_outof_parallel_sync(&pd); want = useful; }
    else if (ev == 7) { talp_openmp_task_create(); tasks = 1; upd = 0; }
    else if (ev == 8) { talp_openmp_task_complete(); want = not_useful_omp_in; }
    else if (ev == 9) { talp_openmp_task_switch(); want = useful; }
    else if (ev == 10) { ASSUME(own < 0 || old[own].state != disabled); talp_openmp_thread_begin(); if (own < 0) want = not_useful_omp_out; upd = 0; }
    else if (ev == 11) { unsigned lv = nd_uint() % 3; pd.level = lv; unsigned rq = nd_range(1, 3); pd.requested_parallelism = rq; pd.talp_parallel_data = 0; talp_openmp_parallel_begin(&pd); pars = 1; upd = 0; if (talp && lv) { talp_sample_t **v = pd.talp_parallel_data; for (unsigned i = 0; i < rq; ++i) v[i] = &smp[0]; } }
    if (!talp || thread_is_observer) { CHECK(!fresh, "a thread that is not measured has no record"); for (int r = 0; r < NR; ++r) CHECK(region_same(r), "no region changes"); for (int i = 0; i < n0; ++i) { snap t = snp(i); CHECK(t.last == old[i].last && t.useful == old[i].useful && t.mpi == old[i].mpi && t.in == old[i].in && t.out == old[i].out && t.calls == old[i].calls && t.state == old[i].state, "nothing is measured"); } opened(order, nopen); unlocked(); return 0; }
    if (own < 0) CHECK(fresh && info_.ncpus == n0 + 1 && _tls_sample == &smp[n0] && tab[n0] == &smp[n0], "a new thread has its own record"); else CHECK(!fresh && info_.ncpus == n0, "a thread has one record");
    /* time that a new thread adds to the outer regions */
    if (ev == 10 && own < 0) { snap t = snp(n0); for (int k = 1; k < nopen; ++k) { int r = order[k]; CHECK((*RP[r]).omp_serialization_time == was[r].omp_serialization_time + t.last - was[r].start_time, "a new thread was idle in all the regions that are open, since they started"); (*RP[r]).omp_serialization_time = was[r].omp_serialization_time; } CHECK(t.last == (nopen ? was[order[0]].start_time : t.last) && IMPL(!nopen, t.last >= t0), "a new thread was idle in the innermost open region since it started"); }
    smp[me].stats.num_mpi_calls -= agg ? 0 : calls; smp[me].stats.num_omp_parallels -= pars; smp[me].stats.num_omp_tasks -= tasks;
    credited(-1, agg ? calls : 0, 0, 0, agg ? FLUSHED : 0);
    CHECK(smp[me].state == want, "the thread is in the state of the event"); if (upd) CHECK(smp[me].last_updated_timestamp >= t0, "the time until the event counts for the state before"); for (int i = 0; i < n0; ++i) if (i != me) { CHECK(smp[i].state == old[i].state, "other threads go on"); if (!agg) { snap t = snp(i); CHECK(t.last == old[i].last && t.calls == old[i].calls, "other threads go on"); } }
    if (!agg && ev != 10) for (int r = 0; r < NR; ++r) CHECK(region_same(r), "regions are updated later"); if (agg) { cpus(n0 + fresh, -1); profiled(); }
    for (int r = 0; r < NR; ++r) CHECK(rest_same(r), SAME); opened(order, nopen); unlocked(); COVER(nopen == 3, "all open"); return 0;
}
#elif defined(OP_PARALLEL)
static omptool_parallel_data_t pd;
int main(void) {
    world(); int64_t t0 = now; unsigned lv = LEVEL, n = TEAM; talp_sample_t **team; if (lv > 1) team = malloc(sizeof(talp_sample_t*) * 3); else { static talp_sample_t *l1[3]; team = l1; } pd.level = lv; pd.actual_parallelism = n; pd.requested_parallelism = 3; pd.talp_parallel_data = team;
    for (unsigned i = 0; i < n; ++i) team[i] = &smp[i]; ASSUME(own == 0);
    talp_openmp_parallel_end(&pd);
    int f = lv == 1 ? 0 : 1; /* the first thread of a nested region is accounted for by its own region */ int64_t x[NT], mn = INT64_MAX, lb = 0, sc = 0; int64_t T = smp[lv == 1 || n == 1 ? 0 : 1].last_updated_timestamp; CHECK(T >= t0, "up to now");
    for (unsigned i = f; i < n; ++i) { x[i] = old[i].in + (old[i].state == not_useful_omp_in ? T - old[i].last : 0); if (x[i] < mn) mn = x[i]; } 
    for (unsigned i = f; i < n; ++i) { lb += x[i] - mn; sc += mn; snap t = snp(i); CHECK(t.in == 0 && t.useful == 0 && t.mpi == 0 && t.out == 0 && t.calls == 0 && t.last == T, "nothing from inside the parallel region is left for later"); }
    for (int r = 0; r < NR; ++r) if (open0[r]) { CHECK((*RP[r]).omp_load_imbalance_time == was[r].omp_load_imbalance_time + lb, "threads wait for the slowest one: load imbalance"); CHECK((*RP[r]).omp_scheduling_time == was[r].omp_scheduling_time + sc, "what even the slowest one waits: scheduling"); }
    credited(-1, 0, 0, 0, 0); int c = (int)n - f; cpus(c, -1); for (int r = 0; r < NR; ++r) CHECK(rest_same(r), SAME); opened(order, nopen);
    CHECK(smp[0].state == useful, "the first thread goes on"); for (int i = 1; i < n0; ++i) CHECK(smp[i].state == (i < (int)n && old[i].state == not_useful_omp_in ? not_useful_omp_out : old[i].state), "the others leave the parallel region");
    unlocked(); COVER(nopen == 3, "all open"); return 0;
}
#endif
