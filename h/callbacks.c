/* Callback dispatch (numThreads.c): which callback of the program runs, with which CPUs and argument. */
#include "verif.h"
#include "numThreads.c"
#include "topo.h"
#include "mu_stub.c"
#define SYS ((1u << NCPUS) - 1)
enum { NT, SAM, SPM, AAM, APM, EN, DIS, ENS, DISS, NCB };
static const int WHICH[NCB] = { dlb_callback_set_num_threads, dlb_callback_set_active_mask, dlb_callback_set_process_mask, dlb_callback_add_active_mask, dlb_callback_add_process_mask, dlb_callback_enable_cpu, dlb_callback_disable_cpu, dlb_callback_enable_cpu_set, dlb_callback_disable_cpu_set };
static int n[NCB]; static unsigned long what[NCB]; static long last[NCB]; static const void *arg_seen[NCB]; static bool order_bad;
static void one(int k, int v, void *a) { ++n[k]; if (v < 0 || v >= NCPUS) order_bad = true; else { if ((what[k] >> v) & 1) order_bad = true; what[k] |= 1UL << v; } if (n[k] > 1 && v <= last[k]) order_bad = true; last[k] = v; arg_seen[k] = a; }
static void f_nt(int t, void *a) { ++n[NT]; last[NT] = t; arg_seen[NT] = a; }
#define FM(name, k) static void name(const cpu_set_t *m, void *a) { ++n[k]; what[k] = m->__bits[0]; arg_seen[k] = a; }
FM(f_sam, SAM) FM(f_spm, SPM) FM(f_aam, AAM) FM(f_apm, APM) FM(f_ens, ENS) FM(f_diss, DISS)
static void f_en(int c, void *a) { one(EN, c, a); }
static void f_dis(int c, void *a) { one(DIS, c, a); }
static const dlb_callback_t F[NCB] = { (dlb_callback_t)f_nt, (dlb_callback_t)f_sam, (dlb_callback_t)f_spm, (dlb_callback_t)f_aam, (dlb_callback_t)f_apm, (dlb_callback_t)f_en, (dlb_callback_t)f_dis, (dlb_callback_t)f_ens, (dlb_callback_t)f_diss };
static char A[NCB]; static bool set[NCB]; static unsigned aff;
int sched_getaffinity(pid_t p, size_t s, cpu_set_t *m) { CPU_ZERO(m); m->__bits[0] = aff; return 0; }
static int total(void) { int t = 0; for (int i = 0; i < NCB; ++i) t += n[i]; return t; }
static void only(int k, int cnt, const char *w) { CHECK(n[k] == cnt && total() == cnt && IMPL(cnt > 0, arg_seen[k] == &A[k]), "exactly the registered callback runs, with its own argument"); }
int main(void) {
    topo_setup(NCPUS, 1, NCPUS);
    pm_interface_t pm; memset(&pm, 0, sizeof pm);
    for (int i = 0; i < NCB; ++i) { set[i] = nd_bool(); if (set[i]) CHECK(pm_callback_set(&pm, WHICH[i], F[i], &A[i]) == DLB_SUCCESS, "a known callback is accepted"); }
#if FN == 0
    int k = nd_int(); dlb_callback_t f = (dlb_callback_t)&A[1]; void *a = &A[2];
    bool known = false; int idx = -1;
    for (int i = 0; i < NCB; ++i) if (k == WHICH[i]) { known = true; idx = i; }
    int e = pm_callback_get(&pm, k, &f, &a);
    CHECK(e == (known ? DLB_SUCCESS : DLB_ERR_NOCBK), "an unknown callback is refused");
    for (int i = 0; i < NCB; ++i) if (i == idx) CHECK(f == (set[i] ? F[i] : NULL) && a == (set[i] ? &A[i] : NULL), "the callback and argument that were registered are returned");
    if (!known) { CHECK(f == (dlb_callback_t)&A[1] && a == &A[2], "nothing is returned for an unknown callback");
        pm_interface_t q = pm; CHECK(pm_callback_set(&pm, k, F[0], NULL) == DLB_ERR_NOCBK, "an unknown callback is refused"); CHECK(q.dlb_callback_set_num_threads_ptr == pm.dlb_callback_set_num_threads_ptr && q.dlb_callback_disable_cpu_set_arg == pm.dlb_callback_disable_cpu_set_arg && q.dlb_callback_enable_cpu_ptr == pm.dlb_callback_enable_cpu_ptr, "and changes nothing"); }
    if (known) { CHECK(pm_callback_set(&pm, k, NULL, NULL) == DLB_SUCCESS && pm_callback_get(&pm, k, &f, &a) == DLB_SUCCESS && f == NULL && a == NULL, "a callback can be removed");
        for (int i = 0; i < NCB; ++i) if (i != idx) CHECK(pm_callback_get(&pm, WHICH[i], &f, &a) == DLB_SUCCESS && f == (set[i] ? F[i] : NULL) && a == (set[i] ? &A[i] : NULL), "other callbacks stay"); }
    pm_finalize(&pm);
    for (int i = 0; i < NCB; ++i) CHECK(pm_callback_get(&pm, WHICH[i], &f, &a) == DLB_SUCCESS && f == NULL, "finalising removes all callbacks");
    COVER(known, "known"); COVER(!known, "unknown");
#elif FN == 1
    int t = nd_int(), e = update_threads(&pm, t);
    CHECK(e == (set[NT] ? DLB_SUCCESS : DLB_ERR_NOCBK), "result"); only(NT, set[NT], "");
    if (set[NT]) CHECK(last[NT] == (t < 1 ? 1 : t > NCPUS ? NCPUS : t), "the number of threads is between one and the size of the machine");
    COVER(set[NT] && t == NCPUS, "all");
#else
    cpu_set_t m; CPU_ZERO(&m); unsigned mm = nd_uchar(); ASSUME(mm <= SYS); m.__bits[0] = mm; int c = nd_int(); ASSUME(c >= 0 && c < NCPUS); aff = nd_uchar(); ASSUME(aff <= SYS);
    int e, k, fb = -1, w = nd_int(); unsigned v = mm, fv = mm;
    switch (w) {
    case 0: e = set_mask(&pm, &m); k = SAM; break;
    case 1: e = set_process_mask(&pm, &m); k = SPM; break;
    case 2: e = add_process_mask(&pm, &m); k = APM; break;
    case 3: e = add_mask(&pm, &m); k = AAM; fb = EN; break;
    case 4: e = enable_cpu_set(&pm, &m); k = ENS; fb = EN; break;
    case 5: e = disable_cpu_set(&pm, &m); k = DISS; fb = DIS; break;
    case 6: e = enable_cpu(&pm, c); k = EN; v = fv = 1u << c; fb = set[AAM] ? (set[ENS] ? ENS : AAM) : -1; break;
    case 7: e = disable_cpu(&pm, c); k = DIS; v = 1u << c; fb = SAM; fv = aff & ~(1u << c); break;
    default: return 0;
    }
    bool direct = set[k], fall = !direct && fb >= 0 && set[fb];
    CHECK(e == (direct || fall ? DLB_SUCCESS : DLB_ERR_NOCBK), "a change is refused only if the program has no callback for it");
    int r = direct ? k : fb; unsigned x = direct ? v : fv;
    if (!direct && !fall) CHECK(total() == 0, "nothing runs without a callback");
    else if (r == EN || r == DIS) { for (int i = 0; i < NCB; ++i) if (i == r) { only(i, __builtin_popcount(x), ""); CHECK(what[i] == x && !order_bad, "each CPU is passed once"); } }
    else for (int i = 0; i < NCB; ++i) if (i == r) { only(i, 1, ""); CHECK(what[i] == x, "the callback gets exactly the CPUs"); }
    COVER(w == 6 && fall && r == AAM, "enable by mask"); COVER(w == 7 && fall, "disable by mask"); COVER(w == 5 && fall && mm == SYS, "one by one");
#endif
    return 0;
}
