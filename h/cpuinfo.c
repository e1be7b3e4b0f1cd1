/* Contracts of the shared CPU table, mode without request queues unless QUEUES=1. */
#include "cpuinfo_common.h"
static int err;
static bool tasks_none(int i) { return n_en[i] == 0 && n_dis[i] == 0; }

#ifdef OP_LEND_CPU
static void op(void) {
    int cpu = nd_int(); ASSUME(cpu >= -4 && cpu < NCPUS + 4);
    if (cpu < 0 || cpu >= NCPUS) {
        if (cpu < 0) { FORNEG(err = shmem_cpuinfo__lend_cpu(ME, cpu, &tasks)); }
        else err = shmem_cpuinfo__lend_cpu(ME, NCPUS, &tasks);
        collect(); CHECK(err == DLB_ERR_PERM, "a CPU outside the machine is refused"); all_untouched(); COVER(1, "out of range"); return;
    }
    FORCPU(cpu, err = shmem_cpuinfo__lend_cpu(ME, cpu, &tasks));
    collect(); transition(MAY_LEND);
    CHECK(err == DLB_SUCCESS, "lending a CPU of the machine succeeds");
    CHECK(shdata->timestamp_cpu_lent == the_time, "lending is signalled to the other processes");
    for (int i = 0; i < NCPUS; ++i) {
        if (i == cpu) {
#if !QUEUES
            released_noq(i); CHECK(!n_dis[i], "lending does not disable anybody");
#endif
        } else if (i / SMT != cpu / SMT) untouched(i);
        else CHECK(nw[i].owner == old[i].owner && nw[i].state == old[i].state && (nw[i].guest == old[i].guest || old[i].guest == NOBODY), "a CPU in the same core keeps its owner, its state and its user");
    }
#if QUEUES
    m_start(); m_lend(1ul << cpu);
    m_check();
#endif
    COVER(tasks.count > 0, "lend resolves a callback");
    COVER(old[0].owner == ME && old[0].state == CPU_BUSY && old[0].guest == ME && cpu == 0 && nw[0].guest == NOBODY, "lend owned busy CPU");
}
#endif

#ifdef OP_LEND_MASK
static void op(void) {
    cpu_set_t m; nd_user_mask(&m);
    unsigned long mm = m.__bits[0];
    FORMASK(m, err = shmem_cpuinfo__lend_cpu_mask(ME, &m, &tasks));
    collect(); transition(MAY_LEND);
    CHECK(err == DLB_SUCCESS, "lending a mask succeeds");
    CHECK(shdata->timestamp_cpu_lent == the_time, "lending is signalled to the other processes");
    for (int i = 0; i < NCPUS; ++i) {
        if (mm >> i & 1) {
#if !QUEUES
            released_noq(i); CHECK(!n_dis[i], "lending does not disable anybody");
#endif
        } else if (!(mm >> (i/SMT*SMT) & ((1u << SMT) - 1))) untouched(i);
    }
#if QUEUES
    m_start(); m_lend(mm);
    m_check();
#endif
    COVER(tasks.count > 0, "lend mask resolves a callback");
    COVER(mm == (1u << MASKLIM) - 1, "lend everything");
}
#endif

#ifdef OP_RECLAIM_CPU
static void op(void) {
    int cpu = nd_int(); ASSUME(cpu >= -4 && cpu < NCPUS + 4);
    if (cpu < 0 || cpu >= NCPUS) {
        if (cpu < 0) { FORNEG(err = shmem_cpuinfo__reclaim_cpu(ME, cpu, &tasks)); }
        else err = shmem_cpuinfo__reclaim_cpu(ME, NCPUS, &tasks);
        collect(); CHECK(err == DLB_ERR_PERM, "a CPU outside the machine is refused"); all_untouched(); COVER(1, "out of range"); return;
    }
    FORCPU(cpu, err = shmem_cpuinfo__reclaim_cpu(ME, cpu, &tasks));
    collect(); transition(MAY_CLAIM);
    if (old[cpu].owner != ME) { CHECK(err == DLB_ERR_PERM, "reclaiming a CPU of somebody else is refused"); all_untouched(); }
    else {
        claimed(cpu);
        CHECK(err == (old[cpu].guest == ME ? DLB_NOUPDT : old[cpu].guest == NOBODY ? DLB_SUCCESS : DLB_NOTED), "result of reclaiming");
        for (int i = 0; i < NCPUS; ++i) if (i != cpu) {
            CHECK(same_cpu(i) && n_en[i] == 0, "reclaiming one CPU changes no other");
            if (n_dis[i]) CHECK(err == DLB_NOTED && i/SMT == cpu/SMT && dis[i] == old[i].guest && dis[i] != ME, "only users of the same core are asked to leave");
            if (SMT > 1 && err == DLB_NOTED && i/SMT == cpu/SMT && old[i].guest != ME && old[i].guest != NOBODY) CHECK(n_dis[i] == 1, "every other user of the core is asked to leave");
        }
    }
    COVER(err == DLB_NOTED, "reclaim from a guest");
    COVER(err == DLB_SUCCESS, "reclaim idle");
    COVER(err == DLB_ERR_PERM, "reclaim refused");
    COVER(err == DLB_NOUPDT, "reclaim nothing");
}
#endif

#ifdef OP_RECLAIM_ALL
static void op(void) {
    err = shmem_cpuinfo__reclaim_all(ME, &tasks);
    collect(); transition(MAY_CLAIM);
    bool any_idle = false, any_guest = false;
    for (int i = 0; i < NCPUS; ++i) {
        if (old[i].owner == ME && old[i].guest != ME) {
            claimed(i);
            if (old[i].guest == NOBODY) any_idle = true; else any_guest = true;
        } else {
            CHECK(tasks_none(i) && nw[i].guest == old[i].guest && IMPL(old[i].owner != ME, same_cpu(i)), "reclaiming everything affects owned CPUs only");
        }
    }
    CHECK(err == (any_guest ? DLB_NOTED : any_idle ? DLB_SUCCESS : DLB_NOUPDT), "result of reclaiming everything");
    COVER(err == DLB_NOTED, "noted"); COVER(err == DLB_SUCCESS, "success"); COVER(err == DLB_NOUPDT, "noupdt");
}
#endif

#ifdef OP_RECLAIM_CPUS
static void op(void) {
    int n = nd_int(); ASSUME(n >= -2 && n <= NCPUS + 2);
    err = shmem_cpuinfo__reclaim_cpus(ME, n, &tasks);
    collect(); transition(MAY_CLAIM);
    int eff = 0, possible = 0; bool any_idle = false, any_guest = false;
    for (int i = 0; i < NCPUS; ++i) {
        bool can = old[i].owner == ME && old[i].guest != ME;
        possible += can;
        if (claim_effect(i)) { claimed(i); ++eff; CHECK(can, "only owned CPUs are reclaimed"); if (old[i].guest == NOBODY) any_idle = true; else any_guest = true; }
        else CHECK(tasks_none(i) && nw[i].guest == old[i].guest && (nw[i].state == old[i].state || (old[i].owner == ME && old[i].guest == ME)), "other CPUs are left alone");
    }
    CHECK(eff == 0 || eff <= n + SMT - 1, "no more CPUs are reclaimed than asked for, rounded up to a core");
    CHECK(eff >= possible || eff >= n, "as many CPUs are reclaimed as asked for, if the process owns them");
    CHECK(err == (any_guest ? DLB_NOTED : any_idle ? DLB_SUCCESS : DLB_NOUPDT), "result of reclaiming a number of CPUs");
    COVER(eff == 2, "two reclaimed"); COVER(err == DLB_NOTED, "noted"); COVER(err == DLB_SUCCESS, "success");
}
#endif

#ifdef OP_RECLAIM_MASK
static void op(void) {
    cpu_set_t m; nd_user_mask(&m); unsigned long mm = m.__bits[0];
    FORMASK(m, err = shmem_cpuinfo__reclaim_cpu_mask(ME, &m, &tasks));
    collect(); transition(MAY_CLAIM);
    bool any_idle = false, any_guest = false, any_foreign = false;
    for (int i = 0; i < NCPUS; ++i) {
        bool in = mm >> i & 1;
        if (in && old[i].owner == ME && old[i].guest != ME) { claimed(i); if (old[i].guest == NOBODY) any_idle = true; else any_guest = true; }
        else CHECK(tasks_none(i) && nw[i].guest == old[i].guest && (nw[i].state == old[i].state || (in && old[i].owner == ME && old[i].guest == ME)), "other CPUs are left alone");
        if (in && old[i].owner != ME) any_foreign = true;
    }
    if (err == DLB_ERR_PERM) CHECK(any_foreign, "a refusal needs a CPU of somebody else");
    else CHECK(err == (any_guest ? DLB_NOTED : any_idle ? DLB_SUCCESS : DLB_NOUPDT), "result of reclaiming a mask");
    COVER(err == DLB_NOTED, "noted"); COVER(err == DLB_SUCCESS, "success"); COVER(err == DLB_ERR_PERM, "perm");
}
#endif

#ifdef OP_ACQUIRE_CPU
static void op(void) {
    int cpu = nd_int(); ASSUME(cpu >= -4 && cpu < NCPUS + 4);
    if (cpu < 0 || cpu >= NCPUS) {
        if (cpu < 0) { FORNEG(err = shmem_cpuinfo__acquire_cpu(ME, cpu, &tasks)); }
        else err = shmem_cpuinfo__acquire_cpu(ME, NCPUS, &tasks);
        collect(); CHECK(err == DLB_ERR_PERM, "a CPU outside the machine is refused"); all_untouched(); COVER(1, "out of range"); return;
    }
    FORCPU(cpu, err = shmem_cpuinfo__acquire_cpu(ME, cpu, &tasks));
    collect(); transition(MAY_CLAIM);
    for (int i = 0; i < NCPUS; ++i) if (i != cpu) untouched(i);
    if (old[cpu].guest == ME) { CHECK(err == DLB_NOUPDT && same_cpu(cpu) && tasks_none(cpu), "acquiring a CPU already in use changes nothing"); }
    else if (old[cpu].owner == ME) { claimed(cpu); CHECK(err == (old[cpu].guest == NOBODY ? DLB_SUCCESS : DLB_NOTED), "acquiring an owned CPU is a reclaim"); }
    else if (old[cpu].guest == NOBODY && old[cpu].state == CPU_LENT && elig(old, ME, cpu)) {
        CHECK(err == DLB_SUCCESS && nw[cpu].guest == ME && nw[cpu].state == CPU_LENT && n_en[cpu] == 1 && en[cpu] == ME && !n_dis[cpu], "an idle lent CPU is granted");
    } else if (old[cpu].state == CPU_DISABLED) CHECK(err == DLB_ERR_PERM && same_cpu(cpu) && tasks_none(cpu), "a CPU outside DLB is refused");
    else {
        CHECK(nw[cpu].guest == old[cpu].guest && nw[cpu].state == old[cpu].state && tasks_none(cpu), "a CPU in use by others is not granted");
#if QUEUES
        CHECK(err == DLB_NOTED || err == DLB_ERR_REQST, "a request that cannot be served is queued");
        if (err == DLB_NOTED) { CHECK(nw[cpu].nreq == old[cpu].nreq + 1 && nw[cpu].req[old[cpu].nreq] == ME, "the request is queued last");
            for (int k = 0; k < QMAX; ++k) if (k < old[cpu].nreq) CHECK(nw[cpu].req[k] == old[cpu].req[k], "earlier requests keep their place"); }
        else CHECK(old[cpu].nreq >= 7, "a request is only dropped when the queue is full");
#else
        CHECK(err == DLB_NOUPDT, "a request that cannot be served changes nothing");
#endif
    }
    COVER(err == DLB_NOTED, "acquire from a guest"); COVER(err == DLB_SUCCESS && old[cpu].owner != ME, "borrow"); COVER(err == DLB_NOUPDT, "nothing");
}
#endif

#ifdef OP_BORROW_CPU
static void op(void) {
    int cpu = nd_int(); ASSUME(cpu >= -4 && cpu < NCPUS + 4);
    if (cpu < 0 || cpu >= NCPUS) {
        if (cpu < 0) { FORNEG(err = shmem_cpuinfo__borrow_cpu(ME, cpu, &tasks)); }
        else err = shmem_cpuinfo__borrow_cpu(ME, NCPUS, &tasks);
        collect(); CHECK(err == DLB_ERR_PERM, "a CPU outside the machine is refused"); all_untouched(); COVER(1, "out of range"); return;
    }
    FORCPU(cpu, err = shmem_cpuinfo__borrow_cpu(ME, cpu, &tasks));
    collect(); transition(MAY_CLAIM);
    for (int i = 0; i < NCPUS; ++i) if (i != cpu) untouched(i);
    if (old[cpu].guest == NOBODY && elig(old, ME, cpu) && (old[cpu].owner == ME || old[cpu].state == CPU_LENT)) {
        CHECK(err == DLB_SUCCESS && nw[cpu].guest == ME && n_en[cpu] == 1 && en[cpu] == ME && !n_dis[cpu], "an idle CPU that is lent or owned is granted");
        CHECK(nw[cpu].state == (old[cpu].owner == ME ? CPU_BUSY : CPU_LENT), "state after borrowing");
    } else { CHECK(err == DLB_NOUPDT && same_cpu(cpu) && tasks_none(cpu), "a CPU that is not idle, or not lent, is not borrowed"); }
    COVER(err == DLB_SUCCESS && old[cpu].owner != ME, "borrow"); COVER(err == DLB_NOUPDT, "nothing");
}
#endif

#ifdef OP_RETURN_CPU
static void op(void) {
    int cpu = nd_int(); ASSUME(cpu >= -4 && cpu < NCPUS + 4);
    if (cpu < 0 || cpu >= NCPUS) {
        if (cpu < 0) { FORNEG(err = shmem_cpuinfo__return_cpu(ME, cpu, &tasks)); }
        else err = shmem_cpuinfo__return_cpu(ME, NCPUS, &tasks);
        collect(); CHECK(err == DLB_ERR_PERM, "a CPU outside the machine is refused"); all_untouched(); COVER(1, "out of range"); return;
    }
    FORCPU(cpu, err = shmem_cpuinfo__return_cpu(ME, cpu, &tasks));
    collect(); transition(0);
    for (int i = 0; i < NCPUS; ++i) if (i != cpu) untouched(i);
    if (old[cpu].guest != ME) { CHECK(err == DLB_ERR_PERM && same_cpu(cpu) && tasks_none(cpu), "only the user of a CPU returns it"); }
    else if (old[cpu].owner == ME || (old[cpu].state == CPU_LENT && elig(old, ME, cpu))) CHECK(err == DLB_NOUPDT && same_cpu(cpu) && tasks_none(cpu), "a CPU nobody claims is not returned");
    else {
        CHECK(err == DLB_SUCCESS && nw[cpu].guest == (old[cpu].state == CPU_BUSY ? old[cpu].owner : NOBODY) && nw[cpu].state == old[cpu].state, "a claimed CPU goes back to its owner");
        CHECK(n_dis[cpu] == 1 && dis[cpu] == ME && !n_en[cpu], "the process that returns a CPU disables it");
    }
    COVER(err == DLB_SUCCESS, "returned"); COVER(err == DLB_NOUPDT, "nothing");
}
#endif

#if defined(OP_RETURN_ALL) || defined(OP_RETURN_MASK)
static void op(void) {
    unsigned long mm = (1u << NCPUS) - 1;
#ifdef OP_RETURN_ALL
    err = shmem_cpuinfo__return_all(ME, &tasks);
#else
    cpu_set_t m; nd_user_mask(&m); mm = m.__bits[0];
    FORMASK(m, err = shmem_cpuinfo__return_cpu_mask(ME, &m, &tasks));
#endif
    collect(); transition(0);
    bool any = false;
    for (int i = 0; i < NCPUS; ++i) {
        bool claimed_back = old[i].guest == ME && old[i].owner != ME && (old[i].state == CPU_BUSY || !elig(old, ME, i));
        if ((mm >> i & 1) && (claimed_back && old[i].state == CPU_BUSY)) {
            CHECK(nw[i].guest == old[i].owner && n_dis[i] == 1 && dis[i] == ME && !n_en[i] && nw[i].state == old[i].state, "every claimed CPU goes back to its owner");
            any = true;
        } else if ((mm >> i & 1) && claimed_back && old[i].owner != NOBODY) {
            CHECK(nw[i].guest == NOBODY && n_dis[i] == 1 && dis[i] == ME && !n_en[i] && nw[i].state == old[i].state, "a CPU of a claimed core is released");
            any = true;
        } else if ((mm >> i & 1) && old[i].guest == ME && old[i].owner == NOBODY) {
            /* no owner: may be kept, or released if the index still names it */
            CHECK((same_cpu(i) && tasks_none(i)) || (nw[i].guest == NOBODY && n_dis[i] == 1 && dis[i] == ME && !n_en[i] && nw[i].state == old[i].state), "a CPU without owner is kept or released");
            if (n_dis[i]) any = true;
        } else untouched(i);
    }
    if (any) CHECK(err == DLB_SUCCESS, "returning CPUs reports success");
    else CHECK(err == DLB_NOUPDT, "returning nothing reports no update");
    COVER(any && tasks.count >= 2, "two returned"); COVER(!any, "nothing");
}
#endif

#ifdef OP_CHECK_AVAIL
static void op(void) {
    int cpu = nd_int(); ASSUME(cpu >= 0 && cpu < NCPUS);
    FORCPU(cpu, err = shmem_cpuinfo__check_cpu_availability(ME, cpu));
    collect(); transition(MAY_STEAL | MAY_CLAIM);
    CHECK(tasks.count == 0, "no callback");
    for (int i = 0; i < NCPUS; ++i) if (i != cpu) untouched(i);
    if (old[cpu].guest == ME && (old[cpu].owner == ME || old[cpu].state == CPU_LENT)) CHECK(err == DLB_SUCCESS && same_cpu(cpu), "a CPU in use by the process and not claimed is available");
    if (old[cpu].owner != ME && old[cpu].state != CPU_LENT) CHECK(err == DLB_ERR_PERM && same_cpu(cpu), "a CPU claimed by its owner or outside DLB is not available");
    if (err == DLB_SUCCESS) CHECK(nw[cpu].guest == ME, "an available CPU is used by the process");
    else CHECK(same_cpu(cpu), "a CPU that is not available is left alone");
    if (old[cpu].guest != NOBODY && old[cpu].guest != ME) CHECK(err != DLB_SUCCESS, "a CPU in use by others is not available");
    if (old[cpu].guest == NOBODY && elig(old, ME, cpu) && (old[cpu].owner == ME || old[cpu].state == CPU_LENT)) CHECK(err == DLB_SUCCESS, "an idle CPU is available");
    COVER(err == DLB_SUCCESS && old[cpu].guest == NOBODY, "granted"); COVER(err == DLB_NOTED || err == DLB_NOUPDT, "wait"); COVER(err == DLB_ERR_PERM, "perm");
}
#endif

#if defined(OP_DEREGISTER) || defined(OP_FINALIZE) || defined(OP_CLEANUP)
static void op(void) {
#ifdef OP_CLEANUP
    /* another process finds that ME died */
    cleanup_shmem(shdata, ME);
    err = DLB_SUCCESS; shdata->timestamp_cpu_lent = the_time;
#else
#ifdef OP_DEREGISTER
    err = shmem_cpuinfo__deregister(ME, &tasks);
#else
    int nsub = nd_int(); ASSUME(nsub >= 1 && nsub <= 3);
    subprocesses_attached = nsub;
    bool ext = nd_bool();
    if (ext) err = shmem_cpuinfo_ext__postfinalize(ME);
    else err = shmem_cpuinfo__finalize(ME, "k", 0);
    if (ext) CHECK(shdata != NULL && subprocesses_attached == nsub, "post-finalizing another process keeps the table open");
    else CHECK((shdata == NULL) == (nsub == 1), "the table is closed by the last local user");
    shdata = &memx;
#endif
#endif
    collect();
    CHECK(err == DLB_SUCCESS, "deregistering succeeds");
    CHECK(shdata->timestamp_cpu_lent == the_time, "freed CPUs are signalled to the other processes");
    bool public = cpu_is_public_post_mortem || !respect_cpuset;
    for (int i = 0; i < NCPUS; ++i) {
        const ocpu_t *o = &old[i], *n = &nw[i];
        CHECK(n->owner == (o->owner == ME ? NOBODY : o->owner), "deregistering removes the process as owner and changes no other owner");
        CHECK(n->guest != ME, "a deregistered process uses no CPU");
        if (o->guest != ME && o->guest != NOBODY) CHECK(n->guest == o->guest, "deregistering does not take CPUs from other processes");
        if (o->owner == ME) {
            CHECK(n->state == (public ? CPU_LENT : CPU_DISABLED), "the CPUs of a deregistered process are disabled, or public if so configured");
#if !QUEUES
            if (o->guest == ME || o->guest == NOBODY) CHECK(n->guest == NOBODY, "a deregistered CPU becomes idle");
#endif
            if (!public) CHECK(n->guest == NOBODY || n->guest == o->guest, "a disabled CPU is not handed out");
        } else {
            CHECK(n->state == o->state, "CPUs of other processes keep their state");
#ifdef OP_DEREGISTER
#if !QUEUES
            if (o->guest == ME) CHECK(n->guest == (o->state == CPU_BUSY ? o->owner : NOBODY), "borrowed CPUs are released");
            else if (SMT == 1) CHECK(n->guest == o->guest, "other CPUs are left alone");
#endif
#else
            if (o->guest == ME) CHECK(n->guest == NOBODY, "borrowed CPUs are released"); else CHECK(n->guest == o->guest, "other CPUs are left alone");
#endif
        }
        CHECK(wf(nw, i), "the CPU table stays well formed"); if (SMT > 1) CHECK(wf_core(nw, i), "cores stay whole in the CPU table");
#if QUEUES
        for (int k = 0; k < QMAX + 1; ++k) if (k < n->nreq) CHECK(n->req[k] != ME, "requests of a deregistered process are dropped");
#endif
    }
#if QUEUES
    for (int k = 0; k < QMAX + 1; ++k) if (k < n_ngr) CHECK(ngr[k].pid != ME, "global requests of a deregistered process are dropped");
#endif
    COVER(old[0].owner == ME && old[NCPUS-1].guest == ME && (old[NCPUS-1].owner != ME || NCPUS == SMT), "owner and guest"); COVER(public, "public"); COVER(!public, "private");
}
#endif

#ifdef OP_RESET
static void op(void) {
    err = shmem_cpuinfo__reset(ME, &tasks);
    collect(); transition(MAY_CLAIM);
    CHECK(err == DLB_SUCCESS, "resetting succeeds");
    for (int i = 0; i < NCPUS; ++i) {
        if (old[i].owner == ME) claimed(i);
        else if (old[i].guest == ME) {
            CHECK(nw[i].guest != ME && n_dis[i] == 1 && dis[i] == ME, "borrowed CPUs are released and disabled");
            if (old[i].state == CPU_BUSY) CHECK(nw[i].guest == old[i].owner, "a reclaimed CPU goes back to its owner");
#if !QUEUES
            else CHECK(nw[i].guest == NOBODY, "a released CPU becomes idle");
#endif
        } else CHECK(n_dis[i] == 0 && (nw[i].guest == old[i].guest || SMT > 1), "other CPUs are left alone");
    }
    COVER(old[0].owner == ME && old[NCPUS-1].guest == ME && (old[NCPUS-1].owner != ME || NCPUS == SMT), "owner and guest");
}
#endif

#ifdef OP_MAXPAR
static void op(void) {
    unsigned max = nd_uint(); ASSUME(max <= NCPUS + 1);
    err = shmem_cpuinfo__update_max_parallelism(ME, max, &tasks);
    collect(); transition(MAY_LEND);
    CHECK(err == DLB_SUCCESS, "limiting parallelism succeeds");
    unsigned owned = 0, total = 0, guested = 0, rank = 0, after = 0;
    for (int i = 0; i < NCPUS; ++i) { if (old[i].owner == ME) ++owned; if (nw[i].guest == ME) ++after; }
    for (int i = 0; i < NCPUS; ++i) {
        if (old[i].owner == ME) {
            ++rank;
            if (rank > max) { CHECK(nw[i].state == CPU_LENT && nw[i].guest != ME, "owned CPUs beyond the limit are lent");
                if (old[i].guest == ME) CHECK(n_dis[i] == 1 && dis[i] == ME, "a CPU beyond the limit is disabled"); }
            else CHECK(nw[i].state == old[i].state && nw[i].guest == old[i].guest && !n_dis[i], "owned CPUs within the limit are kept");
        } else if (old[i].guest == ME) {
            ++guested;
            if (owned + guested > max) CHECK(nw[i].guest != ME && n_dis[i] == 1 && dis[i] == ME, "borrowed CPUs beyond the limit are released");
            else CHECK(nw[i].guest == ME && tasks_none(i), "borrowed CPUs within the limit are kept");
        } else CHECK(nw[i].guest == old[i].guest || SMT > 1, "other CPUs are left alone");
    }
    CHECK(after <= max, "the process uses no more CPUs than the limit");
    COVER(after == max && tasks.count > 0, "limited"); COVER(tasks.count == 0, "no effect");
}
#endif

#ifdef OP_UPDATE_OWNERSHIP
static void op(void) {
    cpu_set_t m; nd_mask(&m); unsigned long mm = m.__bits[0];
#if SMT > 1
    for (int i = 0; i < NCPUS; ++i) ASSUME((mm >> i & 1) == (mm >> (i/SMT*SMT) & 1));
#endif
    bool with = nd_bool();
    if (!with) for (int i = 0; i < NCPUS; ++i) ASSUME(!(old[i].guest == ME && old[i].owner != ME));
    if (with) { FORMASK(m, shmem_cpuinfo__update_ownership(ME, &m, &tasks)); }
    else { FORMASK(m, shmem_cpuinfo__update_ownership(ME, &m, NULL)); }
    collect();
    for (int i = 0; i < NCPUS; ++i) {
        const ocpu_t *o = &old[i], *n = &nw[i];
        bool in = mm >> i & 1;
        CHECK(wf(nw, i), "the CPU table stays well formed"); if (SMT > 1) CHECK(wf_core(nw, i), "cores stay whole in the CPU table");
        CHECK(n->owner == (in ? ME : o->owner == ME ? NOBODY : o->owner), "the process owns exactly its mask and other owners change only inside it");
        if (o->guest != NOBODY && o->guest != ME) CHECK(n->guest == o->guest, "changing ownership does not take CPUs from other processes");
        if (in && o->owner != ME) {
            CHECK(n->state == CPU_BUSY, "a new CPU is claimed");
            if (o->guest == NOBODY) CHECK(n->guest == ME, "an idle new CPU is used at once");
            if (with) CHECK(n_en[i] == 1 && en[i] == ME && (o->guest == NOBODY || o->guest == ME ? !n_dis[i] : n_dis[i] == 1 && dis[i] == o->guest), "callbacks for a new CPU");
        } else if (in) CHECK(n->state == o->state && n->guest == o->guest && tasks_none(i), "a CPU already owned is left alone");
        else if (o->owner == ME) {
            CHECK(n->state == CPU_DISABLED && n->guest != ME, "a CPU given up is no longer used");
            if (with && o->guest == ME) CHECK(n_dis[i] == 1 && dis[i] == ME && !n_en[i], "a CPU given up is disabled");
        } else if (o->guest == ME && o->state == CPU_BUSY) CHECK(n->guest == o->owner && n_dis[i] == 1 && dis[i] == ME, "a CPU claimed by its owner is returned");
        else CHECK(same_cpu(i) && tasks_none(i), "other CPUs are left alone");
    }
    COVER(tasks.count > 2, "several callbacks"); COVER(!with && (mm & 1), "without callbacks");
}
#endif

#if defined(OP_INIT)
static int fin_calls;
static void op(void) {
    cpu_set_t m; nd_mask(&m); unsigned long mm = m.__bits[0];
#if SMT > 1
    for (int i = 0; i < NCPUS; ++i) ASSUME((mm >> i & 1) == (mm >> (i/SMT*SMT) & 1));
#endif
    bool pre = nd_bool(), steal = nd_bool();
    int preinit = nd_pid();
    for (int i = 0; i < NCPUS; ++i) ASSUME(old[i].owner != ME || !pre || 1);
    int which = nd_int(); ASSUME(which == 0 || which == 1);
    int nsub = nd_int(); ASSUME(nsub >= 1 && nsub <= 2); subprocesses_attached = nsub;
    if (which == 0) {
        /* a process registers its mask */
        for (int i = 0; i < NCPUS; ++i) ASSUME(old[i].owner != ME && (old[i].guest != ME));
        FORMASK(m, err = shmem_cpuinfo__init(ME, preinit, &m, "k", 0));
        steal = false;
    } else {
        preinit = 0;
        FORMASK(m, err = shmem_cpuinfo_ext__preinit(ME, &m, steal ? DLB_STEAL_CPUS : 0));
    }
    shdata = &memx;
    collect();
    bool conflict = false;
    for (int i = 0; i < NCPUS; ++i) if ((mm >> i & 1) && old[i].owner != NOBODY && old[i].owner != ME && old[i].owner != preinit) conflict = true;
    if (conflict && !steal) {
        CHECK(err == DLB_ERR_PERM, "registering a CPU owned by another process is refused");
        for (int i = 0; i < NCPUS; ++i) CHECK(nw[i].owner == old[i].owner && nw[i].guest == old[i].guest && nw[i].state == old[i].state, "a refused registration changes nothing");
    } else {
        CHECK(err == DLB_SUCCESS, "registering free CPUs succeeds");
        for (int i = 0; i < NCPUS; ++i) {
            if (mm >> i & 1) {
                CHECK(nw[i].owner == ME && nw[i].state == CPU_BUSY, "the process owns its whole mask");
                CHECK(nw[i].guest == (old[i].guest == NOBODY || (preinit && old[i].guest == preinit) ? ME : old[i].guest), "registered CPUs are used by the process unless somebody still uses them");
                CHECK(wf(nw, i), "the CPU table stays well formed"); if (SMT > 1) CHECK(wf_core(nw, i), "cores stay whole in the CPU table");
                CHECK(nw[i].nreq == 0, "old requests are dropped");
            } else CHECK(same_cpu(i), "CPUs outside the mask are left alone");
        }
    }
    CHECK(tasks.count == 0, "no callbacks");
    COVER(conflict && err == DLB_ERR_PERM, "refused"); COVER(err == DLB_SUCCESS && mm == 3, "registered"); COVER(steal && conflict, "stolen");
}
#endif

#ifdef OP_QUERIES
static void op(void) {
    int n = nd_int(); ASSUME(n >= -1 && n <= NCPUS + 1);
    int which = nd_int(); ASSUME(which >= 0 && which < 4);
    int owned_busy = 0, owned = 0, non_owned = 0, guested = 0, first_owned = 0;
    int bind = -1, nth = -1;
    for (int i = 0; i < NCPUS; ++i) {
        if (old[i].owner == ME) { if (!owned) first_owned = non_owned; ++owned; }
        else if (old[i].state != CPU_DISABLED) ++non_owned;
        if (old[i].owner == ME && old[i].state == CPU_BUSY) { if (owned_busy == n) bind = i; ++owned_busy; }
    }
    for (int i = 0; i < NCPUS; ++i) if (!(old[i].owner == ME && old[i].state == CPU_BUSY) && old[i].guest == ME) { if (n >= owned_busy && guested == n - owned_busy) bind = i; ++guested; }
    if (n < 0) bind = -1;
    if (which == 0) { int r = shmem_cpuinfo__get_thread_binding(ME, n); CHECK(r == bind, "threads bind to owned CPUs first, then to borrowed ones"); COVER(r == 2, "binding"); }
    else if (which == 1) { int r = shmem_cpuinfo__get_number_of_non_owned_cpus(ME); CHECK(r == non_owned, "number of registered CPUs of other processes"); COVER(r == 2, "count"); }
    else if (which == 2 && n >= 0) {
        int r = shmem_cpuinfo__get_nth_non_owned_cpu(ME, n);
        int k = 0, want = -1;
        if (n < non_owned) { int target = (first_owned + n) % non_owned; for (int i = 0; i < NCPUS; ++i) if (old[i].owner != ME && old[i].state != CPU_DISABLED) { if (k == target) want = i; ++k; } }
        CHECK(r == want, "nth CPU of other processes, counting from the first owned one"); COVER(r == 1, "nth");
    } else { bool e = is_shmem_empty(); bool w = true; for (int i = 0; i < NCPUS; ++i) w = w && old[i].owner == NOBODY; CHECK(e == w, "the table is empty when nobody owns a CPU"); CHECK(shmem_cpuinfo__exists(), "open"); COVER(e, "empty"); COVER(!e, "not empty"); }
    collect(); all_untouched();
}
#endif

#if defined(OP_ACQUIRE_N) || defined(OP_BORROW_N) || defined(OP_ACQUIRE_SUBSET) || defined(OP_BORROW_SUBSET)
static cpuid_t items[NCPUS];
static void op(void) {
    array_cpuid_t arr = { .items = items, .count = 0, .capacity = NCPUS };
    /* any order and any subset: PERM is one of the NCPUS! orders, chosen per job; count is arbitrary */
    static const cpuid_t perm[] = PERM;
    unsigned cnt = nd_uint(); ASSUME(cnt <= NCPUS);
#ifdef CNT
    cnt = CNT;
#endif
    arr.count = cnt;
    for (int i = 0; i < NCPUS; ++i) items[i] = perm[i];
    unsigned long inarr = 0;
    for (unsigned i = 0; i < NCPUS; ++i) if (i < cnt) inarr |= 1ul << perm[i];
    unsigned long incore = 0;
    for (int i = 0; i < NCPUS; ++i) if (inarr & (((1ul << SMT) - 1) << (i/SMT*SMT))) incore |= 1ul << i;
    int n = nd_int(), maxp = nd_int(); bool has_n = nd_bool(), has_last = nd_bool();
    ASSUME(n >= -1 && n <= NCPUS + 1 && maxp >= 0 && maxp <= NCPUS + 1);
    int64_t last = nd_ll(), last0 = last, lent0 = shdata->timestamp_cpu_lent;
    int n0 = n;
    bool owned_first = true;  /* the priority list has owned CPUs first */
    for (int i = 1; i < NCPUS; ++i) if (old[perm[i]].owner == ME && old[perm[i-1]].owner != ME && i < (int)cnt) owned_first = false;
    bool spread = nd_bool();
    int n_idle_free = 0; for (int i = 0; i < NCPUS; ++i) n_idle_free += old[i].free;
#if defined(OP_ACQUIRE_N)
    ASSUME(owned_first);
    err = shmem_cpuinfo__acquire_ncpus_from_cpu_subset(ME, has_n ? &n : NULL, &arr, LEWI_AFFINITY_AUTO, maxp, has_last ? &last : NULL, &tasks);
    bool acq = true; spread = false;
#elif defined(OP_BORROW_N)
    err = shmem_cpuinfo__borrow_ncpus_from_cpu_subset(ME, has_n ? &n : NULL, &arr, spread ? LEWI_AFFINITY_SPREAD_IFEMPTY : LEWI_AFFINITY_AUTO, maxp, has_last ? &last : NULL, &tasks);
    bool acq = false;
#elif defined(OP_ACQUIRE_SUBSET)
    maxp = 0; has_n = false; has_last = false; spread = false;
    err = shmem_cpuinfo__acquire_from_cpu_subset(ME, &arr, &tasks);
    bool acq = true;
#else
    maxp = 0; has_n = false; has_last = false; spread = false;
    err = shmem_cpuinfo__borrow_from_cpu_subset(ME, &arr, &tasks);
    bool acq = false;
#endif
    collect(); transition(MAY_CLAIM);
    int in_use = 0, got = 0, noted = 0;
    for (int i = 0; i < NCPUS; ++i) if ((inarr >> i & 1) && old[i].guest == ME) ++in_use;
    unsigned long freeb = 0, nodes = 0;
    for (int i = 0; i < NCPUS; ++i) if (old[i].free) freeb |= 1ul << i;
    if (spread) for (int k = 0; k < NCPUS/CPN; ++k) { unsigned long nm = ((1ul << CPN) - 1) << (k*CPN); if ((nm & ~freeb) == 0) nodes |= nm; }
    unsigned long reach = incore; 
    for (int i = 0; i < NCPUS; ++i) if (nodes >> i & 1) reach |= (((1ul << SMT) - 1) << (i/SMT*SMT));
    for (int i = 0; i < NCPUS; ++i) {
        if (!(reach >> i & 1)) { untouched(i); continue; }
        if (nw[i].guest == ME && old[i].guest != ME) { ++got; CHECK(n_en[i] == 1 && en[i] == ME && !n_dis[i], "callback for an obtained CPU"); }
        else if (n_en[i]) { ++noted; CHECK(acq && old[i].owner == ME && old[i].guest != ME && nw[i].state == CPU_BUSY && n_dis[i] == 1 && dis[i] == old[i].guest, "a reclaim inside an acquire"); }
        else CHECK(nw[i].guest == old[i].guest && n_dis[i] == 0 && nw[i].state == old[i].state, "a CPU not obtained is left alone");
        if (!acq) CHECK(n_dis[i] == 0, "borrowing asks nobody to leave");
    }
    int limit = has_n ? n0 : NCPUS;
    if (maxp != 0 && maxp - in_use < limit) limit = maxp - in_use;
    if (limit < 0) limit = 0;
    CHECK(got + noted == 0 || got + noted <= limit + SMT - 1, "no more CPUs are obtained than asked for or allowed, rounded up to a core");
    CHECK(IFF(got + noted > 0, err == DLB_SUCCESS || (err == DLB_NOTED && !QUEUES) || (QUEUES && got + noted > 0)), "the result tells whether something was obtained");
    if (!QUEUES && got + noted == 0) CHECK(err == DLB_NOUPDT, "nothing obtained");
    if (!QUEUES) CHECK(IFF(noted > 0, err == DLB_NOTED), "a reclaim is reported as pending");
    bool early = (has_n && n0 <= 0) || (has_last && last0 > lent0) || (maxp != 0 && maxp <= in_use);
    if (!early && (SMT == 1 || acq)) for (int i = 0; i < NCPUS; ++i) if (inarr >> i & 1) {
        if (got + noted >= limit) break;
        if (acq && old[i].owner == ME && old[i].guest != ME) CHECK(nw[i].state == CPU_BUSY && n_en[i] == 1, "every owned CPU is obtained while the request is not satisfied");
        if (SMT == 1 && old[i].guest == NOBODY && (old[i].owner == ME || old[i].state == CPU_LENT)) CHECK(nw[i].guest == ME, "every idle CPU is obtained while the request is not satisfied");
    }
    /* owned CPUs that sit idle are recovered even if nothing was lent since the last failure */
    if (acq && has_last && last0 > lent0 && !(has_n && n0 <= 0) && !(maxp != 0 && maxp <= in_use) && cnt > 0 && old[perm[0]].owner == ME && old[perm[0]].guest == NOBODY)
        CHECK(nw[perm[0]].guest == ME || got + noted >= limit, "owned idle CPUs are always recovered");
#if QUEUES && defined(OP_ACQUIRE_N)
    /* what could not be obtained waits as a general request for exactly the CPUs asked for */
    bool owned_all = true; for (int i = 0; i < NCPUS; ++i) if ((inarr >> i & 1) && old[i].owner == ME && old[i].guest != ME) owned_all = false;
    bool ends = (has_n && n0 <= 0) || (has_last && last0 > lent0 && owned_all) || (maxp != 0 && maxp <= in_use);
    int miss = ends || !has_n ? 0 : limit - got - noted;
    int at = -1; for (int k = QMAX - 1; k >= 0; --k) if (k < n_ogr && ogr[k].pid == ME && ogr[k].allowed == inarr) at = k;
    CHECK(n_ngr == n_ogr + (miss > 0 && at < 0), "an unsatisfied request for a number of CPUs is queued once");
    for (int k = 0; k < QMAX; ++k) if (k < n_ogr) CHECK(ngr[k].pid == ogr[k].pid && ngr[k].allowed == ogr[k].allowed && ngr[k].howmany == ogr[k].howmany + (miss > 0 && k == at ? miss : 0), "a repeated request adds to the amount waiting, other requests are unchanged");
    for (int k = 0; k < QMAX + 1; ++k) if (k == n_ogr && miss > 0 && at < 0) CHECK(ngr[k].pid == ME && ngr[k].howmany == (unsigned)miss && ngr[k].allowed == inarr, "a new request waits last, for the missing CPUs only");
    for (int i = 0; i < NCPUS; ++i) { CHECK(nw[i].nreq == old[i].nreq, "requests for single CPUs are not affected"); for (int k = 0; k < QMAX; ++k) if (k < old[i].nreq) CHECK(nw[i].req[k] == old[i].req[k], "requests for single CPUs are not affected"); }
    if (miss > 0) CHECK(err == DLB_NOTED, "a queued request is reported as pending");
    COVER(miss > 0 && at >= 0, "repeated request"); COVER(miss > 0 && at < 0 && n_ogr == 1, "new request");
#endif
    if (has_last) {
        if (got + noted > 0) CHECK(last == last0, "a successful attempt does not mark a failure");
        else CHECK(last == last0 || last == the_time, "a failed attempt is dated");
    }
    #ifndef FIX0
    COVER(acq ? noted == 1 : 1, "one pending");
#endif
    COVER(got == 2, "two obtained"); COVER(got == 0 && noted == 0, "nothing obtained");
#ifdef OP_BORROW_N
    COVER(spread && got == 2, "spread");
#endif
}
#endif

#ifdef OP_RETURN_ASYNC
static void op(void) {
    cpu_set_t m; nd_mask(&m); unsigned long mm = m.__bits[0];
    for (int i = 0; i < NCPUS; ++i) if (mm >> i & 1) ASSUME(old[i].owner != ME && old[i].guest == ME);
    int cpu = nd_int(); bool single = nd_bool(); ASSUME(cpu >= 0 && cpu < NCPUS);
    if (single) { ASSUME(mm == 1ul << cpu); FORCPU(cpu, shmem_cpuinfo__return_async_cpu(ME, cpu)); }
    else { FORMASK(m, shmem_cpuinfo__return_async_cpu_mask(ME, &m)); }
    collect(); transition(0);
    for (int i = 0; i < NCPUS; ++i) {
        if (!(mm >> i & 1)) { untouched(i); continue; }
        CHECK(nw[i].guest == (old[i].state == CPU_BUSY ? old[i].owner : NOBODY) && nw[i].state == old[i].state && tasks_none(i), "a returned CPU goes to its owner if claimed, otherwise becomes idle");
#if QUEUES
        CHECK(nw[i].nreq == old[i].nreq + 1 && nw[i].req[old[i].nreq] == ME, "a process that had to return a CPU asks for it again");
#endif
    }
    COVER(mm == 3, "two"); COVER(single, "single");
}
#endif

#ifdef OP_REMOVE_REQ
static void op(void) {
    shmem_cpuinfo__remove_requests(ME);
    collect();
    for (int i = 0; i < NCPUS; ++i) {
        CHECK(nw[i].owner == old[i].owner && nw[i].guest == old[i].guest && nw[i].state == old[i].state, "dropping requests changes no CPU");
        int k2 = 0;
        for (int k = 0; k < QMAX; ++k) if (k < old[i].nreq && old[i].req[k] != ME) { CHECK(k2 < nw[i].nreq && nw[i].req[k2] == old[i].req[k], "requests of other processes are kept in order"); ++k2; }
        CHECK(k2 == nw[i].nreq, "requests of the process are dropped");
    }
    int k2 = 0;
    for (int k = 0; k < QMAX; ++k) if (k < n_ogr && ogr[k].pid != ME) { CHECK(k2 < n_ngr && ngr[k2].pid == ogr[k].pid && ngr[k2].howmany == ogr[k].howmany && ngr[k2].allowed == ogr[k].allowed, "global requests of other processes are kept in order"); ++k2; }
    CHECK(k2 == n_ngr, "global requests of the process are dropped");
    COVER(nw[0].nreq < old[0].nreq && nw[0].nreq > 0, "some dropped");
}
#endif

int main(void) {
#ifdef FIX0
    /* case split: owner and users of the two cores; core 0 per job, core 1 here */
    int sel = nd_int(); ASSUME(sel >= 0 && sel < 27);
    for (int k = 0; k < 27; ++k) if (sel == k) { fix1 = k; mk_state(); op(); return 0; }
#else
    mk_state();
    op();
#endif
    return 0;
}
