#include "verif.h"
#ifndef NCPUS
#define NCPUS 4
#endif
#include "support/mask_utils.c"
#include "topo.h"
static cpu_set_t t_sys, t_core[NCPUS], t_node[NCPUS];
static mu_cpuset_t t_core_masks[NCPUS], t_node_masks[NCPUS];
static mu_cpuset_t *t_by_cpuid[NCPUS];
void topo_setup(int ncpus, int cpc, int cpn) {
    mu_cpuset_setsize = ncpus;
    mu_cpuset_num_ulongs = 1;
    mu_cpuset_alloc_size = sizeof(unsigned long);
    sys.num_cpus = ncpus; sys.num_cores = ncpus / cpc; sys.num_nodes = ncpus / cpn;
    for (int i = 0; i < ncpus; ++i) { 
        CPU_SET(i, &t_sys); CPU_SET(i, &t_core[i/cpc]); CPU_SET(i, &t_node[i/cpn]);
        t_by_cpuid[i] = &t_core_masks[i/cpc];
    }
    sys.sys_mask = (mu_cpuset_t){ .set = &t_sys, .alloc_size = 8, .count = ncpus, .first_cpuid = 0, .last_cpuid = ncpus-1 };
    for (int i = 0; i < ncpus/cpc; ++i) t_core_masks[i] = (mu_cpuset_t){ .set = &t_core[i], .alloc_size = 8, .count = cpc, .first_cpuid = i*cpc, .last_cpuid = i*cpc+cpc-1};
    for (int i = 0; i < ncpus/cpn; ++i) t_node_masks[i] = (mu_cpuset_t){ .set = &t_node[i], .alloc_size = 8, .count = cpn, .first_cpuid = i*cpn, .last_cpuid = i*cpn+cpn-1};
    sys.node_masks = t_node_masks; sys.core_masks_by_coreid = t_core_masks; sys.core_masks_by_cpuid = t_by_cpuid;
    mu_initialized = true;
}
