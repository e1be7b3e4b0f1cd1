/* Machine topology for harnesses: real mask_utils over a small machine. */
#ifndef TOPO_H
#define TOPO_H
void topo_setup(int ncpus, int cpus_per_core, int cpus_per_node);
#endif
