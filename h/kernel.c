/* API entry points (DLB_interface*.c), gating layer (DLB_kernel.c), policy table (lb_funcs.c), descriptor selection (spd.c). */
#include "verif.h"
#include <unistd.h>
#ifdef VERIF_CBMC
static pid_t the_pid;
static pid_t verif_getpid(void) { return the_pid; }
#define getpid verif_getpid
#endif
#ifdef OP_RACE
#define snprintf(...) 0
#include "support/env.h"
#define dlb_setenv(...) ((void)0)
#define Initialize real_Initialize
#define Finish real_Finish
#define PreInitialize real_PreInitialize
#endif
#include "DLB_kernel.c"
#ifdef OP_RACE
#undef Initialize
#undef Finish
#undef PreInitialize
static int n_initialize, n_finish, n_preinit, n_procfin;
int Initialize(subprocess_descriptor_t *s, pid_t p, int n, const cpu_set_t *m, const char *a) { __CPROVER_atomic_begin(); ++n_initialize; __CPROVER_atomic_end(); return DLB_SUCCESS; }
int Finish(subprocess_descriptor_t *s) { __CPROVER_atomic_begin(); ++n_finish; __CPROVER_atomic_end(); return DLB_SUCCESS; }
int PreInitialize(subprocess_descriptor_t *s, const cpu_set_t *m, const char *a) { __CPROVER_atomic_begin(); ++n_preinit; __CPROVER_atomic_end(); return DLB_SUCCESS; }
#endif
#include "lb_funcs.c"
#include "spd.c"
#include "DLB_interface.c"
#include "DLB_interface_sp.c"
#include "DLB_interface_drom.c"
typedef subprocess_descriptor_t S;
/* ---- recorder: what was called, with what */
enum { N_NONE, A_INIT, A_FINALIZE, A_ENABLE, A_DISABLE, A_SETMAX, A_UNSETMAX, A_INTOCOMM, A_OUTCOMM, A_INTO, A_OUT, A_LEND, A_LEND_CPU, A_LEND_CPUS, A_LEND_MASK, A_RECLAIM, A_RECLAIM_CPU, A_RECLAIM_CPUS, A_RECLAIM_MASK,
  A_ACQ_CPU, A_ACQ_CPUS, A_ACQ_MASK, A_ACQ_IN, A_BORROW, A_BORROW_CPU, A_BORROW_CPUS, A_BORROW_MASK, A_BORROW_IN, A_RET, A_RET_CPU, A_RET_MASK, A_CHECK, A_UPDATE,
  A_TALP_IN, A_TALP_OUT, A_OMPT_IN, A_OMPT_OUT, A_OMPT_LEND, A_POLL, A_CPU_UPDATE, A_SETPM, A_PI_SET, A_PI_GET, A_BARRIER, A_BATTACH, A_BDETACH, A_BREG, A_CBSET, A_CBGET, A_OPTSET, A_OPTGET, A_OPTPRINT, A_INITIALIZE, A_FINISH, A_PREINIT, A_POSTFIN, A_RECOVER, A_LIST,
  M_CPUINFO_I, M_CPUINFO_F, M_PROCINFO_I, M_PROCINFO_SI, M_PROCINFO_F, M_BARRIER_I, M_BARRIER_F, M_NB_I, M_NB_F, M_ASYNC_I, M_ASYNC_F, M_TALP_I, M_TALP_F, M_OPT_I, M_OPT_F, M_PM_I, M_PM_F, M_XCPU_I, M_XCPU_F, M_XPROC_I, M_XPROC_F, M_XCPU_P, M_XPROC_P, M_DEBUG_I, M_TIMER_I, M_TIMER_F, M_COUNT };
static unsigned char cnt[M_COUNT]; static short order[M_COUNT]; static int seq; static int ncalls; static const void *l_s, *l_p; static int l_n, l_flags; static int result;
static void hit(int id) { ++cnt[id]; order[id] = ++seq; }
static int rec(int id, const void *s, int n, const void *p) { hit(id); ++ncalls; l_s = s; l_n = n; l_p = p; return result; }
static int r_init(S *s) { return rec(A_INIT, s, 0, 0); }
static int r_finalize(S *s) { return rec(A_FINALIZE, s, 0, 0); }
#define R0(n, id) static int r_##n(const S *s) { return rec(id, s, 0, 0); }
#define R1(n, id) static int r_##n(const S *s, int k) { return rec(id, s, k, 0); }
#define R2(n, id) static int r_##n(const S *s, const cpu_set_t *m) { return rec(id, s, 0, m); }
#define R3(n, id) static int r_##n(const S *s, int k, const cpu_set_t *m) { return rec(id, s, k, m); }
R0(enable, A_ENABLE) R0(disable, A_DISABLE) R1(setmax, A_SETMAX) R0(unsetmax, A_UNSETMAX) R0(intocomm, A_INTOCOMM) R0(outcomm, A_OUTCOMM) R0(into, A_INTO) R0(out, A_OUT)
R0(lend, A_LEND) R1(lend_cpu, A_LEND_CPU) R1(lend_cpus, A_LEND_CPUS) R2(lend_mask, A_LEND_MASK) R0(reclaim, A_RECLAIM) R1(reclaim_cpu, A_RECLAIM_CPU) R1(reclaim_cpus, A_RECLAIM_CPUS) R2(reclaim_mask, A_RECLAIM_MASK)
R1(acq_cpu, A_ACQ_CPU) R1(acq_cpus, A_ACQ_CPUS) R2(acq_mask, A_ACQ_MASK) R3(acq_in, A_ACQ_IN) R0(borrow, A_BORROW) R1(borrow_cpu, A_BORROW_CPU) R1(borrow_cpus, A_BORROW_CPUS) R2(borrow_mask, A_BORROW_MASK) R3(borrow_in, A_BORROW_IN)
R0(ret, A_RET) R1(ret_cpu, A_RET_CPU) R2(ret_mask, A_RET_MASK) R1(check, A_CHECK) R2(update, A_UPDATE)
static const balance_policy_t T = { r_init, r_finalize, r_enable, r_disable, r_setmax, r_unsetmax, r_intocomm, r_outcomm, r_into, r_out, r_lend, r_lend_cpu, r_lend_cpus, r_lend_mask, r_reclaim, r_reclaim_cpu, r_reclaim_cpus, r_reclaim_mask,
  r_acq_cpu, r_acq_cpus, r_acq_mask, r_acq_in, r_borrow, r_borrow_cpu, r_borrow_cpus, r_borrow_mask, r_borrow_in, r_ret, r_ret_cpu, r_ret_mask, r_check, r_update };
/* ---- environment */
static int e_poll, e_set, e_get, e_mod[M_COUNT]; static bool e_coll;
void talp_into_sync_call(const S *s, bool c) { hit(A_TALP_IN); l_s = s; e_coll = c; }
void talp_out_of_sync_call(const S *s, bool c) { hit(A_TALP_OUT); l_s = s; e_coll = c; }
void omptool__into_blocking_call(void) { hit(A_OMPT_IN); }
void omptool__outof_blocking_call(void) { hit(A_OMPT_OUT); }
void omptool__lend_from_api(void) { hit(A_OMPT_LEND); }
static cpu_set_t polled;
int shmem_procinfo__polldrom(pid_t pid, int *n, cpu_set_t *m) { rec(A_POLL, 0, pid, n); if (e_poll == DLB_SUCCESS) { *m = polled; if (n) *n = 3; } return e_poll; }
static int u_pid; static cpu_set_t u_mask;
void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict m, array_cpuinfo_task_t *restrict t) { rec(A_CPU_UPDATE, 0, pid, m); u_pid = pid; u_mask = *m; }
static const void *s_pm; static cpu_set_t s_mask;
int set_process_mask(const pm_interface_t *pm, const cpu_set_t *m) { hit(A_SETPM); s_pm = pm; s_mask = *m; return 0; }
static int set_results[2], set_i; static cpu_set_t *want_free;
int shmem_procinfo__setprocessmask(pid_t pid, const cpu_set_t *m, dlb_drom_flags_t f, cpu_set_t *fr) { rec(A_PI_SET, 0, pid, m); l_flags = f; if (fr) CPU_ZERO(fr); return set_i < 2 ? set_results[set_i++] : DLB_SUCCESS; }
int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *m, dlb_drom_flags_t f) { rec(A_PI_GET, 0, pid, m); l_flags = f; return set_i < 2 ? set_results[set_i++] : DLB_SUCCESS; }
int shmem_procinfo__getpidlist(pid_t *l, int *n, int m) { return rec(A_LIST, n, m, l); }
int shmem_procinfo_ext__recover_stolen_cpus(int pid) { return rec(A_RECOVER, 0, pid, 0); }
#define MOD(id) do { hit(id); return e_mod[id]; } while (0)
static pid_t mi_pid, mi_pre; static const cpu_set_t *mi_mask; static bool mi_noted; static cpu_set_t inherited;
int shmem_procinfo__init(pid_t p, pid_t q, const cpu_set_t *m, cpu_set_t *o, const char *k) { mi_pid = p; mi_pre = q; hit(M_PROCINFO_I); if (e_mod[M_PROCINFO_I] == DLB_NOTED && o) *o = inherited; return e_mod[M_PROCINFO_I]; }
int shmem_procinfo__init_with_cpu_sharing(pid_t p, pid_t q, const cpu_set_t *m, const char *k) { mi_pid = p; mi_pre = q; MOD(M_PROCINFO_SI); }
static cpu_set_t ci_mask;
int shmem_cpuinfo__init(pid_t p, pid_t q, const cpu_set_t *m, const char *k, int c) { ci_mask = *m; MOD(M_CPUINFO_I); }
static pid_t fi_pid; static bool fi_ret;
int shmem_procinfo__finalize(pid_t p, bool r, const char *k) { fi_pid = p; fi_ret = r; MOD(M_PROCINFO_F); }
int shmem_cpuinfo__finalize(pid_t p, const char *k, int c) { MOD(M_CPUINFO_F); }
int shmem_cpuinfo_ext__init(const char *k, int c) { MOD(M_XCPU_I); }
int shmem_cpuinfo_ext__finalize(void) { MOD(M_XCPU_F); }
int shmem_cpuinfo_ext__preinit(pid_t p, const cpu_set_t *m, dlb_drom_flags_t f) { MOD(M_XCPU_P); }
int shmem_cpuinfo_ext__postfinalize(pid_t p) { MOD(A_POSTFIN); }
int shmem_procinfo_ext__init(const char *k) { MOD(M_XPROC_I); }
int shmem_procinfo_ext__finalize(void) { MOD(M_XPROC_F); }
int shmem_procinfo_ext__preinit(pid_t p, const cpu_set_t *m, dlb_drom_flags_t f) { l_n = p; l_p = m; l_flags = f; MOD(M_XPROC_P); }
int shmem_procinfo_ext__postfinalize(pid_t p, bool r) { l_n = p; l_flags = r; MOD(A_POSTFIN); }
void shmem_barrier__init(const char *k) { hit(M_BARRIER_I); }
void shmem_barrier__finalize(const char *k) { hit(M_BARRIER_F); }
void node_barrier_init(S *s) { hit(M_NB_I); }
void node_barrier_finalize(S *s) { hit(M_NB_F); }
int shmem_async_init(pid_t p, const pm_interface_t *pm, const cpu_set_t *m, const char *k) { MOD(M_ASYNC_I); }
int shmem_async_finalize(pid_t p) { MOD(M_ASYNC_F); }
void talp_init(S *s) { hit(M_TALP_I); }
void talp_finalize(S *s) { hit(M_TALP_F); }
static options_t wanted_opts; static bool opts_given;
void options_init(options_t *o, const char *a) { hit(M_OPT_I); *o = wanted_opts; }
void options_finalize(options_t *o) { hit(M_OPT_F); }
void pm_init(pm_interface_t *pm) { hit(M_PM_I); }
void pm_finalize(pm_interface_t *pm) { hit(M_PM_F); }
static int e_threads;
int pm_get_num_threads(void) { return e_threads; }
void debug_init(const options_t *o) { hit(M_DEBUG_I); }
void timer_init(void) { hit(M_TIMER_I); }
void timer_finalize(void) { hit(M_TIMER_F); }
void mu_init(void) {}
int mu_get_system_size(void) { return 8; }
const char *mu_to_str(const cpu_set_t *m) { return ""; }
char *mu_parse_to_slurm_format(const cpu_set_t *m) { return NULL; }
void options_print_lewi_flags(const options_t *o) {}
const char *policy_tostr(policy_t p) { return ""; }
int node_barrier(const S *s, barrier_t *b) { return rec(A_BARRIER, s, 0, b); }
int node_barrier_attach(S *s, barrier_t *b) { return rec(A_BATTACH, s, 0, b); }
int node_barrier_detach(S *s, barrier_t *b) { return rec(A_BDETACH, s, 0, b); }
barrier_t *node_barrier_register(S *s, const char *n, int f) { rec(A_BREG, s, f, n); return (barrier_t*)&result; }
int pm_callback_set(pm_interface_t *pm, dlb_callbacks_t w, dlb_callback_t c, void *a) { return rec(A_CBSET, pm, w, a); }
int pm_callback_get(const pm_interface_t *pm, dlb_callbacks_t w, dlb_callback_t *c, void **a) { return rec(A_CBGET, pm, w, a); }
int options_set_variable(options_t *o, const char *n, const char *v) { return rec(A_OPTSET, o, 0, v); }
int options_get_variable(const options_t *o, const char *n, char *v) { return rec(A_OPTGET, o, 0, v); }
void options_print_variables(const options_t *o, bool e) { rec(A_OPTPRINT, o, e, 0); }
void options_parse_entry(const char *n, void *o) { memset(o, 0, 4); }
#undef dlb_setenv
void dlb_setenv(const char *n, const char *v, char ***e, env_add_condition_t a) {}
const char *error_get_str(int e) { return ""; }
void shmem_cpuinfo__print_info(const char *k, int c, int n, dlb_printshmem_flags_t f) {}
void shmem_procinfo__print_info(const char *k) {}
void shmem_barrier__print_info(const char *k) {}
void shmem_talp__print_info(const char *k, int m) {}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) { *m = polled; return 0; }
GTree *g_tree_new_full(GCompareDataFunc f, gpointer d, GDestroyNotify k, GDestroyNotify v) { return NULL; }
static void *reg_key, *reg_val; static int n_reg, n_unreg;
void g_tree_insert(GTree *t, gpointer k, gpointer v) { reg_key = k; ++n_reg; free(v); }
gboolean g_tree_remove(GTree *t, gconstpointer k) { ++n_unreg; return 1; }
void g_tree_destroy(GTree *t) {}
gpointer g_tree_lookup(GTree *t, gconstpointer k) { return NULL; }
gint g_tree_nnodes(GTree *t) { return 0; }
void g_tree_foreach(GTree *t, GTraverseFunc f, gpointer d) {}
#include "policies.h"
static S other;
static cpu_set_t M1; static int K; static int err;
static void setup(S *s) {
    s->options.lewi = nd_bool(); s->lewi_enabled = nd_bool(); s->options.drom = nd_bool(); s->options.talp = nd_bool(); s->id = nd_int(); s->lb_funcs = T;
    s->dlb_initialized = nd_bool(); s->dlb_preinitialized = nd_bool();
    polled.__bits[0] = nd_uchar(); M1.__bits[0] = nd_uchar(); inherited.__bits[0] = nd_uchar();
}

#ifdef API
/* Every LeWI call: refused before initialisation, without LeWI, or while disabled; otherwise exactly one call of the policy, same arguments, same result */
#if API == 1
#define NAME(f) DLB_##f
#define H0
#define H1
#define SPD s
#else
#define NAME(f) DLB_##f##_sp
#define H0 s
#define H1 s,
#define SPD s
#endif
int main(void) {
    S *s;
#if API == 1
    /* a thread that has used a handler stays with it, any other thread uses the process descriptor */
    spd_enter_dlb(NULL); if (nd_bool()) { s = &other; thread_spd = s; } else { s = thread_spd; if (nd_bool()) thread_spd = NULL; } setup(s);
#else
    s = &other; setup(s); s->dlb_initialized = true;
#endif
    int w = nd_int(), id = 0; K = nd_int(); result = nd_int(); bool gated = true, usesn = false, usesm = false;
    e_poll = nd_int();
    bool was = s->lewi_enabled; int max = nd_int();
    switch (w) {
    case 0: id = A_LEND; err = NAME(Lend)(H0); break;
    case 1: id = A_LEND_CPU; usesn = 1; err = NAME(LendCpu)(H1 K); break;
    case 2: id = A_LEND_CPUS; usesn = 1; err = NAME(LendCpus)(H1 K); break;
    case 3: id = A_LEND_MASK; usesm = 1; err = NAME(LendCpuMask)(H1 &M1); break;
    case 4: id = A_RECLAIM; err = NAME(Reclaim)(H0); break;
    case 5: id = A_RECLAIM_CPU; usesn = 1; err = NAME(ReclaimCpu)(H1 K); break;
    case 6: id = A_RECLAIM_CPUS; usesn = 1; err = NAME(ReclaimCpus)(H1 K); break;
    case 7: id = A_RECLAIM_MASK; usesm = 1; err = NAME(ReclaimCpuMask)(H1 &M1); break;
    case 8: id = A_ACQ_CPU; usesn = 1; err = NAME(AcquireCpu)(H1 K); break;
    case 9: id = A_ACQ_CPUS; usesn = 1; err = NAME(AcquireCpus)(H1 K); break;
    case 10: id = A_ACQ_MASK; usesm = 1; err = NAME(AcquireCpuMask)(H1 &M1); break;
    case 11: id = A_ACQ_IN; usesn = usesm = 1; err = NAME(AcquireCpusInMask)(H1 K, &M1); break;
    case 12: id = A_BORROW; err = NAME(Borrow)(H0); break;
    case 13: id = A_BORROW_CPU; usesn = 1; err = NAME(BorrowCpu)(H1 K); break;
    case 14: id = A_BORROW_CPUS; usesn = 1; err = NAME(BorrowCpus)(H1 K); break;
    case 15: id = A_BORROW_MASK; usesm = 1; err = NAME(BorrowCpuMask)(H1 &M1); break;
    case 16: id = A_BORROW_IN; usesn = usesm = 1; err = NAME(BorrowCpusInMask)(H1 K, &M1); break;
    case 17: id = A_RET; err = NAME(Return)(H0); break;
    case 18: id = A_RET_CPU; usesn = 1; err = NAME(ReturnCpu)(H1 K); break;
    case 19: id = A_RET_MASK; usesm = 1; err = NAME(ReturnCpuMask)(H1 &M1); break;
    case 20: id = A_SETMAX; usesn = 1; err = NAME(SetMaxParallelism)(H1 K); break;
    case 21: id = A_UNSETMAX; err = NAME(UnsetMaxParallelism)(H0); break;
    case 22: id = A_CHECK; usesn = 1; err = NAME(CheckCpuAvailability)(H1 K); break;
    case 23: { /* enable, disable */
        bool on = nd_bool();
        err = on ? NAME(Enable)(H0) : NAME(Disable)(H0);
        if (!s->dlb_initialized) { CHECK(err == DLB_ERR_NOINIT && ncalls == 0 && s->lewi_enabled == was, "LeWI is not enabled or disabled before initialisation"); return 0; }
        CHECK(s->lewi_enabled == on, "enabling and disabling takes effect");
        CHECK(err == (was == on ? DLB_NOUPDT : DLB_SUCCESS) && ncalls == (was != on) && cnt[on ? A_ENABLE : A_DISABLE] == (was != on) && IMPL(was != on, l_s == SPD), "the policy is told once about a change, and only then");
        return 0; }
    case 24: { /* poll */
        int n = -1; cpu_set_t m; m.__bits[0] = 0x55; bool wn = nd_bool(), wm = nd_bool(), upd = nd_bool();
        err = upd ? NAME(PollDROM_Update)(H0) : NAME(PollDROM)(H1 wn ? &n : NULL, wm ? &m : NULL);
        if (!s->dlb_initialized) { CHECK(err == DLB_ERR_NOINIT && ncalls == 0, "polling is refused before initialisation"); return 0; }
        if (!s->options.drom) { CHECK(err == DLB_ERR_NOCOMP && ncalls == 0 && cnt[A_SETPM] == 0, "polling needs DROM"); return 0; }
        CHECK(err == e_poll && cnt[A_POLL] == 1, "the result of a poll is the pending change of this process");
        CHECK(cnt[A_SETPM] == (upd && err == DLB_SUCCESS), "the process mask is applied exactly when a change was polled with update");
        if (cnt[A_SETPM]) CHECK(s_pm == &s->pm && s_mask.__bits[0] == polled.__bits[0], "the polled mask is applied");
        CHECK(cnt[A_UPDATE] == (err == DLB_SUCCESS && s->options.lewi) && cnt[A_CPU_UPDATE] == (err == DLB_SUCCESS && !s->options.lewi), "ownership of CPUs follows a new mask");
        if (cnt[A_CPU_UPDATE]) CHECK(u_pid == s->id && u_mask.__bits[0] == polled.__bits[0], "ownership of CPUs follows exactly the new mask");
        if (cnt[A_UPDATE]) CHECK(l_s == SPD, "the policy of this process resolves the new mask");
        if (!upd && wm && err == DLB_SUCCESS) CHECK(m.__bits[0] == polled.__bits[0], "the new mask is reported");
        if (!upd && wn && err == DLB_SUCCESS) CHECK(n == 3, "the new number of CPUs is reported");
        COVER(upd && cnt[A_SETPM], "update"); COVER(cnt[A_UPDATE], "lewi");
        return 0; }
    default: return 0;
    }
    int want = !s->dlb_initialized && w != 22 ? DLB_ERR_NOINIT : !s->options.lewi ? DLB_ERR_NOLEWI : !was ? DLB_ERR_DISBLD : result;
    CHECK(err == want, "a LeWI call reports why it is refused, or the result of the policy");
    bool go = (s->dlb_initialized || w == 22) && s->options.lewi && was;
    CHECK(ncalls == go && cnt[id] == go, "a LeWI call reaches the policy exactly once, and not at all when refused");
    if (go) CHECK(l_s == SPD && IMPL(usesn, l_n == K) && IMPL(usesm, l_p == &M1), "a LeWI call reaches the policy with its own process and arguments");
    CHECK(cnt[A_OMPT_LEND] == (go && w == 0), "OpenMP is told about a lend");
    CHECK(s->lewi_enabled == was, "LeWI calls do not enable or disable");
    COVER(go && w == 11, "acquire in mask"); COVER(!go && err == DLB_ERR_DISBLD, "disabled");
    return 0;
}
#endif

#ifdef OP_SYNCCALL
int main(void) {
    S *s = &other; setup(s); result = 0;
    bool obs = nd_bool(), none = nd_bool(), in = nd_bool(); sync_call_flags_t f = { .is_mpi = nd_bool(), .is_blocking = nd_bool(), .is_collective = nd_bool(), .is_dlb_barrier = nd_bool(), .do_lewi = nd_bool() };
    CHECK(DLB_SetObserverRole(!obs) == DLB_SUCCESS, "role"); DLB_SetObserverRole(obs);
    thread_spd = none ? NULL : s;
    if (in) into_sync_call(f); else out_of_sync_call(f);
    bool act = !obs && !none, lewi = act && s->options.lewi && s->lewi_enabled && f.do_lewi, talp = act && s->options.talp;
    CHECK(ncalls == lewi && cnt[A_INTO] == (lewi && in) && cnt[A_OUT] == (lewi && !in), "a blocking call lends and recovers CPUs exactly when LeWI is on for it, never for observer threads");
    CHECK(cnt[A_OMPT_IN] == (lewi && in) && cnt[A_OMPT_OUT] == (lewi && !in), "OpenMP is told about it");
    CHECK(cnt[A_TALP_IN] == (talp && in) && cnt[A_TALP_OUT] == (talp && !in), "a blocking call is measured exactly when TALP is on, never for observer threads");
    if (talp) CHECK(l_s == s && e_coll == (f.is_blocking && f.is_collective), "blocking collectives are measured as such");
    COVER(lewi && talp, "both"); COVER(obs && s->options.lewi, "observer");
    return 0;
}
#endif

#ifdef OP_SETMASK
/* DLB_DROM_SetProcessMask / GetProcessMask */
int main(void) {
    spd_enter_dlb(NULL); S *s = thread_spd; setup(s); result = 0; thread_spd = NULL;
    set_results[0] = nd_int(); set_results[1] = nd_int(); int pid = nd_int(), fl = nd_int(); ASSUME(!(fl & DLB_FREE_CPUS_SLURM));
    bool get = nd_bool();
    if (get) err = DLB_DROM_GetProcessMask(pid, &M1, fl); else err = DLB_DROM_SetProcessMask(pid, &M1, fl);
    bool retry = set_results[0] == DLB_ERR_NOSHMEM;
    int e = retry ? set_results[1] : set_results[0];
    CHECK(err == e, "the result is that of the last attempt");
    CHECK(cnt[get ? A_PI_GET : A_PI_SET] == 1 + retry && cnt[M_XCPU_I] == retry && cnt[M_XPROC_I] == retry && cnt[M_XCPU_F] == retry && cnt[M_XPROC_F] == retry, "a program outside DLB attaches for the call and detaches");
    if (get) { CHECK(cnt[A_UPDATE] + cnt[A_CPU_UPDATE] + cnt[A_SETPM] == 0, "a query changes nothing"); return 0; }
    bool own = e == DLB_SUCCESS && s->dlb_initialized && (pid == 0 || pid == s->id) && !(fl & DLB_NO_SYNC);
    CHECK(cnt[A_UPDATE] == (own && s->options.lewi) && cnt[A_CPU_UPDATE] == (own && !s->options.lewi), "a process that sets its own mask gives up and takes CPUs accordingly");
    CHECK(cnt[A_SETPM] == own, "a process that sets its own mask applies it");
    if (own) CHECK(s_pm == &s->pm && s_mask.__bits[0] == M1.__bits[0] && (s->options.lewi ? l_p == &M1 && l_s == s : u_pid == s->id && u_mask.__bits[0] == M1.__bits[0]), "exactly the new mask is applied");
    COVER(own && retry, "own"); COVER(own && s->options.lewi, "own with LeWI");
    return 0;
}
#endif

#ifdef OP_INITFIN
static void nd_opts(void) {
    wanted_opts.lewi = nd_bool(); wanted_opts.drom = nd_bool(); wanted_opts.talp = nd_bool(); wanted_opts.barrier = nd_bool(); wanted_opts.ompt = nd_bool(); wanted_opts.preinit_pid = nd_int();
    wanted_opts.mode = nd_bool() ? MODE_ASYNC : MODE_POLLING; wanted_opts.lewi_affinity = nd_range(LEWI_AFFINITY_AUTO, LEWI_AFFINITY_SPREAD_IFEMPTY); wanted_opts.lewi_color = nd_int(); wanted_opts.debug_opts = nd_int();
    for (int i = M_CPUINFO_I; i < M_DEBUG_I; ++i) e_mod[i] = 0;
    e_mod[M_CPUINFO_I] = nd_int(); e_mod[M_PROCINFO_I] = nd_int(); e_mod[M_PROCINFO_SI] = nd_int(); e_mod[M_ASYNC_I] = nd_int(); e_mod[M_XCPU_I] = nd_int(); e_mod[M_XPROC_I] = nd_int(); e_mod[M_XCPU_P] = nd_int(); e_mod[M_XPROC_P] = nd_int();
    e_threads = nd_int();
}
int main(void) {
    spd_enter_dlb(NULL); S *s = thread_spd; setup(s); nd_opts(); result = nd_int(); thread_spd = NULL;
    bool wi = s->dlb_initialized, wp = s->dlb_preinitialized; int which = nd_int(); options_t old = s->options; 
    if (which == 0) { /* DLB_Init */
        const options_t *o = &wanted_opts; bool mask = nd_bool(); int n = nd_int();
        err = DLB_Init(n, mask ? &M1 : NULL, NULL);
        CHECK(s->dlb_initialized, "initialised");
        if (wi) { CHECK(err == DLB_ERR_INIT && seq == 0, "a second initialisation is refused and does nothing"); return 0; }
        CHECK(s->dlb_preinitialized == wp, "preinitialisation is remembered");
        policy_t pol = !o->lewi ? POLICY_NONE : o->lewi_affinity == LEWI_AFFINITY_NONE ? POLICY_LEWI : (o->lewi_affinity != LEWI_AFFINITY_AUTO || o->ompt || o->preinit_pid || mask) ? POLICY_LEWI_MASK : POLICY_LEWI;
        if (pol == POLICY_LEWI && o->mode == MODE_ASYNC) pol = POLICY_LEWI_ASYNC;
        CHECK(s->lb_policy == pol, "the LeWI mode follows from the options");
        bool classic = pol == POLICY_LEWI || pol == POLICY_LEWI_ASYNC, needs = pol == POLICY_LEWI_MASK || o->drom || o->preinit_pid;
        if (classic && needs) { CHECK(err == DLB_ERR_NOCOMP && !s->lewi_enabled && cnt[M_PROCINFO_I] + cnt[M_PROCINFO_SI] + cnt[M_CPUINFO_I] + cnt[M_ASYNC_I] + cnt[M_TALP_I] == 0, "incompatible modules are refused before anything is registered"); return 0; }
        if (needs) {
            bool share = o->lewi_color != 0; int e1 = share ? e_mod[M_PROCINFO_SI] : e_mod[M_PROCINFO_I];
            CHECK(cnt[M_PROCINFO_I] == !share && cnt[M_PROCINFO_SI] == share, "the process is registered in the process table");
            CHECK(mi_pid == s->id && mi_pre == o->preinit_pid, "under its own id, inheriting from the preinitialised one");
            bool ok1 = e1 == DLB_SUCCESS || (!share && e1 == DLB_NOTED);
            if (!ok1) { CHECK(err == e1 && cnt[M_CPUINFO_I] == 0 && !s->lewi_enabled, "a refused registration stops the initialisation"); return 0; }
            cpu_set_t *em = !share && e1 == DLB_NOTED ? &inherited : mask ? &M1 : &polled;
            CHECK(cnt[M_CPUINFO_I] == 1 && ci_mask.__bits[0] == em->__bits[0] && s->process_mask.__bits[0] == em->__bits[0], "CPUs are registered with the mask the process has, inherited if there is one");
            CHECK(cnt[A_SETPM] == (!share && e1 == DLB_NOTED), "an inherited mask is applied");
            if (e_mod[M_CPUINFO_I] != DLB_SUCCESS) { CHECK(err == e_mod[M_CPUINFO_I] && !s->lewi_enabled, "refused CPUs stop the initialisation"); return 0; }
        } else CHECK(cnt[M_PROCINFO_I] + cnt[M_CPUINFO_I] == 0 && cnt[M_PROCINFO_SI] == o->talp, "no process or CPU table is used unless needed");
        CHECK(cnt[M_BARRIER_I] == o->barrier && cnt[M_NB_I] == o->barrier, "barriers are set up when enabled");
        CHECK(cnt[M_ASYNC_I] == (o->mode == MODE_ASYNC), "the helper thread is started when asynchronous");
        if (o->mode == MODE_ASYNC && e_mod[M_ASYNC_I] != DLB_SUCCESS) { CHECK(err == e_mod[M_ASYNC_I] && !s->lewi_enabled, "a helper that cannot start stops the initialisation"); return 0; }
        if (classic) CHECK(s->lewi_ncpus == (unsigned)(n > 0 ? n : e_threads), "number of CPUs of classic LeWI");
        if (err == DLB_SUCCESS) CHECK(s->lewi_enabled && cnt[M_TALP_I] == o->talp, "an initialised process has LeWI enabled and TALP as asked");
        COVER(classic && err == DLB_SUCCESS, "classic"); COVER(needs && err == DLB_SUCCESS, "mask");
    } else if (which == 1) { /* DLB_Finalize */
        policy_t pol = s->lb_policy = nd_range(POLICY_NONE, POLICY_LEWI_MASK); s->options = wanted_opts; bool hasfin = nd_bool(); if (!hasfin) s->lb_funcs.finalize = NULL;
        const options_t *o = &wanted_opts;
        err = DLB_Finalize();
        CHECK(!s->dlb_initialized && s->dlb_preinitialized == (wi && wp), "finalising undoes one initialisation at a time");
        if (!wi && !wp) { CHECK(err == DLB_NOUPDT && seq == 0, "finalising twice does nothing"); return 0; }
        if (!wi) { CHECK(err == DLB_SUCCESS && seq == 1 && cnt[M_PROCINFO_F] == 1 && fi_pid == s->id && fi_ret == !!(o->debug_opts & DBG_RETURNSTOLEN), "finalising a preinitialisation leaves the process table"); return 0; }
        CHECK(err == DLB_SUCCESS && !s->lewi_enabled, "LeWI is off");
        CHECK(cnt[A_FINALIZE] == hasfin && cnt[M_TALP_F] == o->talp && cnt[M_NB_F] == o->barrier && cnt[M_BARRIER_F] == o->barrier && cnt[M_ASYNC_F] == (o->mode == MODE_ASYNC) && cnt[M_OPT_F] == 1 && cnt[M_PM_F] == 1, "every module in use is finalised once");
        bool reg = pol == POLICY_LEWI_MASK || o->drom || o->preinit_pid || o->talp;
        if (reg) CHECK(cnt[M_PROCINFO_F] == 1 && cnt[M_CPUINFO_F] == 1 && fi_pid == s->id && fi_ret == !!(o->debug_opts & DBG_RETURNSTOLEN), "the process leaves the tables it registered in");
        if (hasfin && reg) CHECK(order[A_FINALIZE] < order[M_CPUINFO_F], "the policy ends before its table is released");
        COVER(reg, "registered");
    } else { /* DLB_PreInit */
        err = DLB_PreInit(&M1, NULL);
        if (wi || wp) { CHECK(err == DLB_ERR_INIT && seq == 0 && s->dlb_preinitialized == wp && s->dlb_initialized == wi, "a process is preinitialised once, before it is initialised"); return 0; }
        CHECK(s->dlb_preinitialized && !s->dlb_initialized, "preinitialised");
        if (wanted_opts.preinit_pid == 0) { CHECK(err == DLB_ERR_INIT, "preinit id"); return 0; }
        int e = e_mod[M_XCPU_I]; CHECK(cnt[M_XCPU_I] == 1, "tables are opened");
        e = e ? e : e_mod[M_XPROC_I]; e = e ? e : e_mod[M_XPROC_P]; e = e ? e : e_mod[M_XCPU_P];
        CHECK(err == e && cnt[M_XCPU_F] == 1 && cnt[M_XPROC_F] == 1, "the first error is reported, and the tables are closed in any case");
        if (e == 0) CHECK(cnt[M_XPROC_P] == 1 && cnt[M_XCPU_P] == 1 && l_n == wanted_opts.preinit_pid && l_p == &M1 && s->id == wanted_opts.preinit_pid, "both tables hold the preinitialised process");
        COVER(e == 0, "ok"); COVER(e < 0, "refused");
    }
    return 0;
}
#endif

#ifdef OP_TABLE
/* every policy has its own functions; what a policy does not provide is refused and does nothing */
int main(void) {
    balance_policy_t f, g; memset(&f, 0, sizeof f); memset(&g, 0, sizeof g); int p = nd_int(); ASSUME(p >= POLICY_NONE && p <= POLICY_LEWI_MASK);
    set_lb_funcs(&f, p); set_lb_funcs(&g, POLICY_NONE);
    void *none = NULL, *got = NULL, *want = NULL; int w = nd_int();
#define E(i, field, l, a, k) case i: got = (void*)f.field; none = (void*)g.field; want = p == POLICY_LEWI ? l : p == POLICY_LEWI_ASYNC ? a : p == POLICY_LEWI_MASK ? k : 0; break;
    switch (w) {
    E(0, init, (void*)lewi_Init, (void*)lewi_async_Init, (void*)lewi_mask_Init)
    E(1, finalize, (void*)lewi_Finalize, (void*)lewi_async_Finalize, (void*)lewi_mask_Finalize)
    E(2, enable, (void*)lewi_EnableDLB, (void*)lewi_async_Enable, (void*)lewi_mask_EnableDLB)
    E(3, disable, (void*)lewi_DisableDLB, (void*)lewi_async_Disable, (void*)lewi_mask_DisableDLB)
    E(4, set_max_parallelism, (void*)lewi_SetMaxParallelism, 0, (void*)lewi_mask_SetMaxParallelism)
    E(5, unset_max_parallelism, (void*)lewi_UnsetMaxParallelism, 0, (void*)lewi_mask_UnsetMaxParallelism)
    E(6, into_blocking_call, (void*)lewi_IntoBlockingCall, (void*)lewi_async_IntoBlockingCall, (void*)lewi_mask_IntoBlockingCall)
    E(7, out_of_blocking_call, (void*)lewi_OutOfBlockingCall, (void*)lewi_async_OutOfBlockingCall, (void*)lewi_mask_OutOfBlockingCall)
    E(8, lend, (void*)lewi_Lend, (void*)lewi_async_Lend, (void*)lewi_mask_Lend)
    E(9, lend_cpu, 0, 0, (void*)lewi_mask_LendCpu)
    E(10, lend_cpus, 0, (void*)lewi_async_LendCpus, 0)
    E(11, lend_cpu_mask, 0, 0, (void*)lewi_mask_LendCpuMask)
    E(12, reclaim, (void*)lewi_Reclaim, (void*)lewi_async_Reclaim, (void*)lewi_mask_Reclaim)
    E(13, reclaim_cpu, 0, 0, (void*)lewi_mask_ReclaimCpu)
    E(14, reclaim_cpus, 0, 0, (void*)lewi_mask_ReclaimCpus)
    E(15, reclaim_cpu_mask, 0, 0, (void*)lewi_mask_ReclaimCpuMask)
    E(16, acquire_cpu, 0, 0, (void*)lewi_mask_AcquireCpu)
    E(17, acquire_cpus, 0, (void*)lewi_async_AcquireCpus, (void*)lewi_mask_AcquireCpus)
    E(18, acquire_cpu_mask, 0, 0, (void*)lewi_mask_AcquireCpuMask)
    E(19, acquire_cpus_in_mask, 0, 0, (void*)lewi_mask_AcquireCpusInMask)
    E(20, borrow, (void*)lewi_Borrow, (void*)lewi_async_Borrow, (void*)lewi_mask_Borrow)
    E(21, borrow_cpu, 0, 0, (void*)lewi_mask_BorrowCpu)
    E(22, borrow_cpus, (void*)lewi_BorrowCpus, (void*)lewi_async_BorrowCpus, (void*)lewi_mask_BorrowCpus)
    E(23, borrow_cpu_mask, 0, 0, (void*)lewi_mask_BorrowCpuMask)
    E(24, borrow_cpus_in_mask, 0, 0, (void*)lewi_mask_BorrowCpusInMask)
    E(25, return_all, 0, 0, (void*)lewi_mask_Return)
    E(26, return_cpu, 0, 0, (void*)lewi_mask_ReturnCpu)
    E(27, return_cpu_mask, 0, 0, (void*)lewi_mask_ReturnCpuMask)
    E(28, check_cpu_availability, 0, 0, (void*)lewi_mask_CheckCpuAvailability)
    E(29, update_ownership, 0, 0, (void*)lewi_mask_UpdateOwnership)
    E(30, into_communication, 0, 0, 0)
    E(31, out_of_communication, 0, 0, 0)
    default: return 0;
    }
    CHECK(got == (want ? want : none), "an operation reaches its own function of the selected policy");
    if (w == 0) CHECK(g.init(&other) == DLB_SUCCESS, "without a policy there is nothing to initialise");
    else if (w == 1) CHECK(g.finalize(&other) == DLB_SUCCESS, "without a policy there is nothing to finalise");
    else CHECK(((int (*)())none)() == DLB_ERR_NOPOL, "an operation the policy does not provide is refused");
    COVER(want && w == 19, "mask"); COVER(!want && p == POLICY_LEWI, "unsupported");
    return 0;
}
#endif

#ifdef OP_SP
int main(void) {
#ifdef VERIF_CBMC
    the_pid = nd_range(1, 4194304);
#endif
    wanted_opts.talp = nd_bool(); wanted_opts.mode = MODE_ASYNC; e_mod[M_ASYNC_I] = nd_int(); ASSUME(e_mod[M_ASYNC_I] <= 0);
    thread_spd = nd_bool() ? &other : NULL; S *prev = thread_spd;
    dlb_handler_t h = DLB_Init_sp(0, &M1, NULL); S *s = h;
    CHECK((h == NULL) == (e_mod[M_ASYNC_I] != 0), "a handler is returned exactly on success");
    if (!h) { CHECK(n_reg == 1 && n_unreg == 1, "a failed subprocess is forgotten"); CHECK(thread_spd == NULL || thread_spd->dlb_initialized == false, "the thread does not keep a failed handler"); return 0; }
    CHECK(n_reg == 1 && n_unreg == 0 && reg_key == h && thread_spd == h && s->dlb_initialized, "a subprocess is registered under its handler");
    dlb_handler_t h2 = NULL; bool two = nd_bool();
    if (two) { h2 = DLB_Init_sp(0, &M1, NULL); CHECK(h2 && h2 != h && ((S*)h2)->id != s->id, "two subprocesses have different ids"); }
    err = DLB_Finalize_sp(h);
    CHECK(err == DLB_SUCCESS && n_unreg == 1 && cnt[M_ASYNC_F] == 1, "a subprocess is finalised once");
    CHECK(thread_spd == NULL || !thread_spd->dlb_initialized, "the thread does not keep a handler that is gone");
    COVER(two, "two"); COVER(!two, "one");
    return 0;
}
#endif

#ifdef OP_RACE
/* two threads initialise, finalise or preinitialise the process at the same time, in every interleaving */
static int e1, e2; static bool d1, d2; static S *g; static int n_en;
static int count_enable(const S *s) { __CPROVER_atomic_begin(); ++n_en; __CPROVER_atomic_end(); return DLB_SUCCESS; }
#if OP_RACE == 1
#define CALL DLB_Init(0, NULL, NULL)
#elif OP_RACE == 4
#define CALL DLB_Enable()
#elif OP_RACE == 2
#define CALL DLB_Finalize()
#else
#define CALL DLB_PreInit(NULL, NULL)
#endif
int main(void) {
    spd_enter_dlb(NULL); g = thread_spd; bool pre = nd_bool();
#if OP_RACE == 4
    g->dlb_initialized = true; g->lewi_enabled = false; g->lb_funcs.enable = count_enable;
#elif OP_RACE == 2
    g->dlb_initialized = true; g->dlb_preinitialized = pre;
#endif
    thread_spd = NULL;
__CPROVER_ASYNC_1: { thread_spd = NULL; e1 = CALL; d1 = true; }
    e2 = CALL; d2 = true;
    __CPROVER_assume(d1 && d2);
#if OP_RACE == 1
    CHECK(n_initialize == 1 && (e1 == DLB_ERR_INIT) + (e2 == DLB_ERR_INIT) == 1, "exactly one of two concurrent initialisations takes place");
#elif OP_RACE == 2
    CHECK(n_finish == 1, "exactly one of two concurrent finalisations takes place");
    CHECK(IMPL(!pre, (e1 == DLB_NOUPDT) + (e2 == DLB_NOUPDT) == 1) && IMPL(pre, cnt[M_PROCINFO_F] == 1), "the other one does nothing, or undoes the preinitialisation");
#elif OP_RACE == 4
    CHECK(n_en == 1 && g->lewi_enabled && (e1 == DLB_NOUPDT) + (e2 == DLB_NOUPDT) == 1, "exactly one of two concurrent enables takes effect");
#else
    CHECK(n_preinit == 1 && (e1 == DLB_ERR_INIT) + (e2 == DLB_ERR_INIT) == 1, "exactly one of two concurrent preinitialisations takes place");
#endif
    return 0;
}
#endif
