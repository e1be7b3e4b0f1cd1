/* Contracts of the mask utilities over a machine of at most NCPUS CPUs (proved
 * separately, for every mask of up to 1024 CPUs, under property C12). */
#include "verif.h"
#include "support/mask_utils.h"
#include "topo.h"
#include <sched.h>
static int t_n = NCPUS, t_cpc = 1, t_cpn = NCPUS;
static cpu_set_t t_core[NCPUS];
static mu_cpuset_t t_core_masks[NCPUS];
void topo_setup(int ncpus, int cpc, int cpn) {
    t_n = ncpus; t_cpc = cpc; t_cpn = cpn;
    for (int i = 0; i < ncpus/cpc; ++i) {
        t_core[i].__bits[0] = ((1UL << cpc) - 1) << (i*cpc);
        t_core_masks[i] = (mu_cpuset_t){ .set = &t_core[i], .alloc_size = 8, .count = cpc, .first_cpuid = i*cpc, .last_cpuid = i*cpc+cpc-1};
    }
}
#define W(m) ((m)->__bits[0])
int mu_get_system_size(void) { return t_n; }
void mu_get_system_mask(cpu_set_t *m) { CPU_ZERO(m); W(m) = (1UL << t_n) - 1; }
int mu_get_system_hwthreads_per_core(void) { return t_cpc; }
bool mu_system_has_smt(void) { return t_cpc > 1; }
int mu_get_num_cores(void) { return t_n / t_cpc; }
int mu_get_core_id(int c) { return c < 0 || c >= t_n ? -1 : c / t_cpc; }
const mu_cpuset_t *mu_get_core_mask(int c) { return c < 0 || c >= t_n ? NULL : &t_core_masks[c / t_cpc]; }
const mu_cpuset_t *mu_get_core_mask_by_coreid(int c) { return c < 0 || c >= t_n / t_cpc ? NULL : &t_core_masks[c]; }
void mu_zero(cpu_set_t *r) { W(r) = 0; }
void mu_and(cpu_set_t *r, const cpu_set_t *a, const cpu_set_t *b) { W(r) = W(a) & W(b); }
void mu_or(cpu_set_t *r, const cpu_set_t *a, const cpu_set_t *b) { W(r) = W(a) | W(b); }
void mu_xor(cpu_set_t *r, const cpu_set_t *a, const cpu_set_t *b) { W(r) = W(a) ^ W(b); }
void mu_substract(cpu_set_t *r, const cpu_set_t *a, const cpu_set_t *b) { W(r) = W(a) & ~W(b); }
bool mu_equal(const cpu_set_t *a, const cpu_set_t *b) { return W(a) == W(b); }
bool mu_is_subset(const cpu_set_t *a, const cpu_set_t *b) { return (W(a) & ~W(b)) == 0; }
bool mu_is_superset(const cpu_set_t *a, const cpu_set_t *b) { return (W(b) & ~W(a)) == 0; }
bool mu_is_proper_subset(const cpu_set_t *a, const cpu_set_t *b) { return mu_is_subset(a,b) && W(a) != W(b); }
bool mu_is_proper_superset(const cpu_set_t *a, const cpu_set_t *b) { return mu_is_superset(a,b) && W(a) != W(b); }
bool mu_intersects(const cpu_set_t *a, const cpu_set_t *b) { return (W(a) & W(b)) != 0; }
int mu_count(const cpu_set_t *m) { return __builtin_popcountl(W(m)); }
int mu_get_first_cpu(const cpu_set_t *m) { return W(m) ? __builtin_ctzl(W(m)) : -1; }
int mu_get_last_cpu(const cpu_set_t *m) { return W(m) ? 63 - __builtin_clzl(W(m)) : -1; }
int mu_get_next_cpu(const cpu_set_t *m, int prev) {
    if (prev < -1 || prev >= 63) return -1;
    unsigned long b = W(m) & (~0UL << (prev + 1));
    return b ? __builtin_ctzl(b) : -1;
}
int mu_get_next_unset(const cpu_set_t *m, int prev) {
    if (prev < -1 || prev >= 63) return -1;
    unsigned long b = ~W(m) & (~0UL << (prev + 1));
    return b ? __builtin_ctzl(b) : -1;
}
int mu_get_single_cpu(const cpu_set_t *m) { return mu_count(m) == 1 ? mu_get_first_cpu(m) : -1; }
void mu_get_nodes_subset_of_cpuset(cpu_set_t *r, const cpu_set_t *m) {
    CPU_ZERO(r);
    for (int i = 0; i < t_n / t_cpn; ++i) {
        unsigned long nm = ((1UL << t_cpn) - 1) << (i*t_cpn);
        if ((nm & ~W(m)) == 0) W(r) |= nm;
    }
}
void mu_get_nodes_intersecting_with_cpuset(cpu_set_t *r, const cpu_set_t *m) {
    CPU_ZERO(r);
    for (int i = 0; i < t_n / t_cpn; ++i) {
        unsigned long nm = ((1UL << t_cpn) - 1) << (i*t_cpn);
        if (nm & W(m)) W(r) |= nm;
    }
}
const char *mu_to_str(const cpu_set_t *m) { return ""; }
