"""Obligation groups per property."""
class Job:
    def __init__(self, name, src, defs=None, extract=None, unwind=9, opts=None, kind='bounded', bound='', functions=None, tier='quick',
                 timeout=400, weight=1, dfcc=None, replace=None, loop_contracts=False, solver=None, fs=64, slice=True, object_bits=9, covers_min=0, smallset=False, hunwind=0, inc=None, only=None, skip=None):
        self.name = name; self.src = src; self.defs = defs or {}; self.extract = extract or []; self.unwind = unwind
        self.opts = opts or []; self.kind = kind; self.bound = bound; self.functions = functions or []; self.tier = tier
        self.timeout = timeout; self.weight = weight; self.dfcc = dfcc; self.replace = replace or []; self.loop_contracts = loop_contracts
        self.solver = solver; self.fs = fs; self.slice = slice; self.object_bits = object_bits; self.covers_min = covers_min; self.smallset = smallset; self.hunwind = hunwind; self.inc = inc or []; self.only = only; self.skip = skip; self.hloops = []
class Prop:
    def __init__(self, jobs, level='proof', trusted=None, assumptions=None, explanation=''):
        self.jobs = jobs; self.level = level; self.trusted = trusted or []; self.assumptions = assumptions or []; self.explanation = explanation
PROPS = {}
import os
NC = int(os.environ.get("NC", "4"))
CI_X = [('LB_comm/shmem_cpuinfo.c', [('flexptr', 'node_info'), ('maskloop',), ('queue', '1024', 'GQSIZE'), ('queue', '8', 'CQSIZE')])]
CI_SRC = ['h/cpuinfo.c', 'h/mu_stub.c', 'lib/stubs_common.c']
CI_OPS = {
 'LEND_CPU': 'shmem_cpuinfo__lend_cpu', 'LEND_MASK': 'shmem_cpuinfo__lend_cpu_mask', 'RECLAIM_CPU': 'shmem_cpuinfo__reclaim_cpu',
 'RECLAIM_ALL': 'shmem_cpuinfo__reclaim_all', 'RECLAIM_CPUS': 'shmem_cpuinfo__reclaim_cpus', 'RECLAIM_MASK': 'shmem_cpuinfo__reclaim_cpu_mask',
 'ACQUIRE_CPU': 'shmem_cpuinfo__acquire_cpu', 'BORROW_CPU': 'shmem_cpuinfo__borrow_cpu', 'RETURN_CPU': 'shmem_cpuinfo__return_cpu',
 'RETURN_ALL': 'shmem_cpuinfo__return_all', 'RETURN_MASK': 'shmem_cpuinfo__return_cpu_mask', 'CHECK_AVAIL': 'shmem_cpuinfo__check_cpu_availability',
 'DEREGISTER': 'shmem_cpuinfo__deregister', 'FINALIZE': 'shmem_cpuinfo__finalize', 'RESET': 'shmem_cpuinfo__reset', 'MAXPAR': 'shmem_cpuinfo__update_max_parallelism',
 'UPDATE_OWNERSHIP': 'shmem_cpuinfo__update_ownership', 'INIT': 'shmem_cpuinfo__init', 'QUERIES': 'shmem_cpuinfo__get_thread_binding',
 'ACQUIRE_N': 'shmem_cpuinfo__acquire_ncpus_from_cpu_subset', 'BORROW_N': 'shmem_cpuinfo__borrow_ncpus_from_cpu_subset',
 'ACQUIRE_SUBSET': 'shmem_cpuinfo__acquire_from_cpu_subset', 'BORROW_SUBSET': 'shmem_cpuinfo__borrow_from_cpu_subset',
 'RETURN_ASYNC': 'shmem_cpuinfo__return_async_cpu', 'REMOVE_REQ': 'shmem_cpuinfo__remove_requests', 'CLEANUP': 'cleanup_shmem (cpuinfo)'}
def ci(op, smt=1, queues=0, ncpus=NC, perm=None, cls=None, cnt=4, quick=True, **kw):
    if not quick: kw['tier'] = 'thorough'
    d = {'OP_' + op: None, 'NCPUS': ncpus, 'SMT': smt, 'QUEUES': queues, 'GQSIZE': 4 if queues else 2, 'CQSIZE': 4 if queues else 2, 'NCPUS_AT_CONFIGURE_TIME': ncpus}
    if op in ('LEND_MASK', 'RECLAIM_MASK', 'RETURN_MASK'): d['MASKLIM'] = ncpus + 1
    name = 'cpuinfo_%s_smt%d%s' % (op.lower(), smt, '_q' if queues else '')
    if perm is not None:
        d['PERM'] = '{' + ','.join(map(str, perm)) + '}'
        name += '_' + ''.join(map(str, perm))
    if cls is not None:
        d['FIX0'] = '{' + ','.join(map(str, cls)) + '}'; d['CNT'] = cnt
        name += '_c' + ''.join(map(str, cls)) + '_n%d' % cnt
    b = 'machine of %d CPUs, %d per core; every reachable-or-not well formed table; 4 process ids' % (ncpus, smt)
    if queues: b += '; request queues with at most 2 entries'
    kw.setdefault('unwind', ncpus + 2); kw.setdefault('hunwind', 34); kw.setdefault('smallset', True)
    if op == 'MAXPAR' and queues: d['QMAX'] = 1
    kw['inc'] = ['lib/qstub']
    return Job(name, CI_SRC, d, CI_X, kind='bounded', bound=b, functions=[CI_OPS[op]], **kw)

LIGHT = ('LEND_CPU', 'LEND_MASK', 'RECLAIM_CPU', 'RECLAIM_ALL', 'RECLAIM_CPUS', 'RECLAIM_MASK', 'ACQUIRE_CPU', 'BORROW_CPU', 'RETURN_CPU', 'RETURN_ALL', 'RETURN_MASK',
         'CHECK_AVAIL', 'DEREGISTER', 'RESET', 'RETURN_ASYNC', 'CLEANUP')
SMT4 = ('LEND_CPU', 'LEND_MASK', 'RECLAIM_CPU', 'RECLAIM_ALL', 'RECLAIM_CPUS', 'RECLAIM_MASK', 'RETURN_CPU', 'RETURN_ALL', 'RETURN_MASK', 'CHECK_AVAIL', 'RETURN_ASYNC')
def P(n): return tuple(range(n))
FIX_Q = ((2, 0, 0), (2, 1, 0), (1, 0, 0))
FIX_T = [(o, a, b) for o in range(3) for a in range(3) for b in range(3)]
def ci_jobs(spec, only=None, skip=None):
    """spec: list of (op, smt, queues, ncpus, tier)"""
    out = []
    for op, smt, q, n, tier in spec:
        kw = dict(only=only, skip=skip, tier=tier, timeout=420 if tier == 'quick' else 2000)
        if op in ('ACQUIRE_N', 'BORROW_N') and smt == 2:
            for f in FIX_T:
                t = 'quick' if tier == 'quick' and f in FIX_Q else 'thorough'
                out.append(ci(op, 2, q, 4, perm=(0, 1, 2, 3), cls=f, weight=20, **dict(kw, tier=t)))
            out.append(ci(op, 2, q, 4, perm=(0, 2, 1, 3), cls=(2, 1, 0), weight=20, **kw))
        elif op in ('ACQUIRE_N', 'BORROW_N', 'ACQUIRE_SUBSET', 'BORROW_SUBSET'):
            out.append(ci(op, smt, q, n, perm=P(n), weight=20 + 20 * q, **kw))
        else:
            out.append(ci(op, smt, q, n, weight=30 if op in ('MAXPAR', 'DEREGISTER', 'RESET') else 1, **kw))
    return out
CI_ASSUME = ['memory allocation succeeds', 'each operation runs under the shared memory lock (lock discipline is checked); the lock itself is pthread_mutex',
  'in SMT mode all CPUs of a core belong to one process (documented precondition of the SMT mode)',
  'masks hold at most 64 CPUs in these groups (cpu_set_t narrowed by lib/smallset)', 'output, tracing and debug functions have no effect on the table']
CI_TRUST = ['cbmc 6.11.0 and its C semantics', 'h/mu_stub.c: contracts of the mask utilities (verified under C12)', 'lib/qstub: contracts of the request queue (verified under C11)',
  'lib/stubs_common.c: output functions', 'extraction: flexible array replaced by a pointer to a fixed array; queue capacity reduced; for-loops over the set bits of a mask visit every index and skip clear bits']
CI_EXPL = ('Every function under contract is verified with CBMC against a Hoare-style contract (requires: the table invariant; ensures: the exact transition, frame and the invariant). '
           'The table is arbitrary (any well formed state, reachable or not), so one call per obligation covers every history. The number of CPUs is bounded, loops are unwound completely for it.')
ALLOPS = [o for o in CI_OPS if o not in ('QUERIES', 'REMOVE_REQ', 'INIT', 'UPDATE_OWNERSHIP', 'FINALIZE', 'CLEANUP')]
PROPS['C01'] = Prop(ci_jobs([(o, 1, 0, 3, 'quick') for o in ALLOPS] + [(o, 2, 0, 4, 'quick') for o in LIGHT if o != 'CLEANUP' and o != 'DEREGISTER'] + [('MAXPAR', 2, 0, 4, 'thorough'), ('ACQUIRE_N', 2, 0, 4, 'thorough'), ('BORROW_N', 2, 0, 4, 'thorough'),
      ('ACQUIRE_SUBSET', 2, 0, 4, 'thorough'), ('BORROW_SUBSET', 2, 0, 4, 'thorough')]
      + [(o, 4, 0, 4, 'quick') for o in SMT4 + ('ACQUIRE_CPU', 'BORROW_CPU')]
      + [(o, 1, 1, 2, 'quick') for o in ('LEND_CPU', 'LEND_MASK', 'ACQUIRE_CPU', 'RETURN_CPU', 'RESET', 'RETURN_ASYNC')], only=r'\[excl\]'),
      level='other', trusted=CI_TRUST, assumptions=CI_ASSUME, explanation=CI_EXPL)
PROPS['C02'] = Prop(ci_jobs([(o, s, 0, 4, 'quick') for s in (1, 2) for o in ('LEND_CPU', 'LEND_MASK', 'RECLAIM_CPU', 'RECLAIM_ALL', 'RECLAIM_CPUS', 'RECLAIM_MASK', 'RETURN_CPU', 'RETURN_ALL', 'RETURN_MASK', 'CHECK_AVAIL', 'RETURN_ASYNC', 'UPDATE_OWNERSHIP')] + [(o, 4, 0, 4, 'quick') for o in SMT4]),
      level='other', trusted=CI_TRUST, assumptions=CI_ASSUME, explanation=CI_EXPL)
PROPS['C03'] = Prop(ci_jobs([(o, 1, 0, 4 if o != 'MAXPAR' else 3, 'quick') for o in ('ACQUIRE_CPU', 'BORROW_CPU', 'ACQUIRE_N', 'BORROW_N', 'ACQUIRE_SUBSET', 'BORROW_SUBSET', 'MAXPAR')]
      + [(o, 2, 0, 4, 'quick') for o in ('ACQUIRE_CPU', 'BORROW_CPU', 'ACQUIRE_N', 'BORROW_N', 'ACQUIRE_SUBSET', 'BORROW_SUBSET', 'MAXPAR')] + [(o, 4, 0, 4, 'quick') for o in ('ACQUIRE_CPU', 'BORROW_CPU')]),
      level='other', trusted=CI_TRUST, assumptions=CI_ASSUME, explanation=CI_EXPL)
PROPS['C04'] = Prop(ci_jobs([(o, s, 0, 4, 'quick') for s in (1, 2) for o in ('INIT', 'DEREGISTER', 'FINALIZE', 'CLEANUP', 'UPDATE_OWNERSHIP', 'RESET', 'QUERIES')]
      + [(o, 1, 1, 2, 'quick') for o in ('INIT', 'DEREGISTER', 'FINALIZE', 'CLEANUP', 'UPDATE_OWNERSHIP')]),
      level='other', trusted=CI_TRUST, assumptions=CI_ASSUME, explanation=CI_EXPL)
PROPS['C05'] = Prop(ci_jobs([(o, 1, 1, 3 if o in ('LEND_CPU',) else 2, 'thorough' if o == 'MAXPAR' else 'quick') for o in ('LEND_CPU', 'LEND_MASK', 'ACQUIRE_CPU', 'ACQUIRE_N', 'RETURN_ASYNC', 'REMOVE_REQ', 'DEREGISTER', 'FINALIZE', 'CLEANUP', 'RESET', 'MAXPAR', 'INIT', 'UPDATE_OWNERSHIP')]
      + [(o, 2, 1, 2, 'quick') for o in ('LEND_CPU', 'LEND_MASK', 'ACQUIRE_CPU', 'RETURN_ASYNC', 'REMOVE_REQ', 'CLEANUP', 'UPDATE_OWNERSHIP', 'RESET', 'DEREGISTER')]),
      level='other', trusted=CI_TRUST, assumptions=CI_ASSUME, explanation=CI_EXPL)
# ---------------------------------------------------------------- C11 request queues
QN = ['enqueue', 'dequeue', 'next', 'delete', 'remove', 'search']
def qjobs(rec):
    out = []
    for o in range(6):
        for f in (range(8) if not rec else range(5)):
            out.append(Job('queue_%s%s_f%d' % ('rec_' if rec else '', QN[o], f), ['h/queue_tpl.c', 'lib/stubs_common.c'], dict({'OP': o, 'QSZ': 8 if not rec else 5, 'F': f}, **({'STRUCT': None} if rec else {})),
              [('support/queue_template.h', [])], unwind=10, kind='bounded' if rec else 'proved', bound='capacity 5 (code: 1024 for the general queue)' if rec else '', object_bits=12,
              functions=['queue_template.h: %s (%s)' % (QN[o], 'record with key' if rec else 'capacity 8, as the per-CPU queue')], weight=o))
    return out
PROPS['C11'] = Prop(qjobs(False) + qjobs(True)
  + [Job('lewi_reqs_%s' % n, ['h/lewi_reqs.c', 'lib/stubs_common.c'], {'OP': o, 'N': 4 if n != 'pop_ncpus' else 3, 'MAXH': '0x1000000' if n != 'pop_ncpus' else 63}, [('support/queues.c', [])], unwind=8, kind='bounded', bound='up to %d waiting processes (code: 255)' % (3 if n == 'pop_ncpus' else 4), functions=['queue_lewi_reqs_' + n], weight=50) for o, n in enumerate(['push', 'remove', 'pop_ncpus'])],
  level='other', trusted=['cbmc 6.11.0 and its C semantics', 'qsort (stand-in: insertion sort with the real comparator)', 'memcmp (stand-in: compares whole keys)'], explanation='The queue is observed through its own operations against a ghost FIFO list.')
# ---------------------------------------------------------------- C12 mask algebra and topology
MX = [('support/mask_utils.c', [('sub', r'\bprint_sys_info\(\);', ';')])]
MS = ['h/masks.c', 'lib/stubs_common.c']
AN = ['and/or/xor/substract/zero', 'set operations in place', 'equal/subset/superset/intersects', 'count/first/last/single', 'next_cpu/next_unset']
TN = ['sizes', 'core_of_cpu', 'core_mask', 'nodes_intersecting', 'nodes_subset', 'cores_intersecting', 'cores_subset', 'count_cores', 'take_last_core', 'set_core', 'next_core']
PROPS['C12'] = Prop(
  [Job('alg%d_sys%d' % (k, n), MS, {'ALG': k, 'SYSN': n}, MX, unwind=70, opts=['--unwindset', 'init_system.0:1030,init_system.1:1030,init_system.2:1030,init_system.3:1030,init_system.4:1030,init_system_masks.0:1030'], kind='bounded', bound='machines of exactly %d CPUs, every mask' % n, functions=['mask_utils: ' + AN[k]], tier='quick' if n in (64, 65, 192) else 'thorough', weight=n)
     for k in range(5) for n in (1, 64, 65, 128, 192, 256, 511, 1024)]
  + [Job('topo%d_%s' % (t, n), MS, {'TOPO': t, 'WHICH': w}, MX, unwind=17, hunwind=70, weight=100 if w == 10 else 1, tier='thorough' if (w, t) == (10, 3) else 'quick', kind='bounded', bound='5 machine layouts of up to 13 CPUs, every mask', functions=['mask_utils: topology queries: ' + n]) for t in range(5) for w, n in enumerate(TN)]
  + [Job('cmp%d%s' % (t, '_aff' if a else ''), MS, dict({'CMP': t}, **({'AFF': None} if a else {})), MX, unwind=70, kind='bounded', bound='8 CPUs, 3 core layouts, every mask', functions=['mu_cmp_cpuids_by_affinity' if a else 'mu_cmp_cpuids_by_ownership']) for t in range(3) for a in (0, 1)],
  level='other', trusted=['cbmc 6.11.0 and its C semantics', 'glibc: __sched_cpucount, __sched_cpualloc, ffsl (stand-ins in lib/stubs_common.c)'], explanation='')

# ---------------------------------------------------------------- C07-C10 DROM process table
PI_X = [('LB_comm/shmem_procinfo.c', [('flexptr', 'processes')])]
PI_OPS = {'SET': 'shmem_procinfo__setprocessmask (set_new_mask, steal_mask, register_mask, unregister_mask)', 'GET': 'shmem_procinfo__getprocessmask', 'POLL': 'shmem_procinfo__polldrom', 'PREINIT': 'shmem_procinfo_ext__preinit',
 'FINALIZE': 'shmem_procinfo__finalize', 'POSTFINALIZE': 'shmem_procinfo_ext__postfinalize', 'CLEANUP': 'cleanup_shmem (procinfo)', 'RECOVER': 'shmem_procinfo_ext__recover_stolen_cpus', 'INIT': 'shmem_procinfo__init, shmem_procinfo__init_with_cpu_sharing', 'LISTS': 'shmem_procinfo__get*list'}
def pi(op, sync=0, share=0, n=3, **kw):
    d = {'OP_' + op: None, 'NP': n, 'NCPUS': n, 'NCPUS_AT_CONFIGURE_TIME': n}
    if sync: d['SYNC'] = sync
    if share: d['SHARING'] = None
    kw.setdefault('unwind', n + 2)
    return Job('procinfo_%s%s%s%s' % (op.lower(), '_sync' if sync else '', '_share' if share else '', '' if n == 3 else '_n%d' % n), ['h/procinfo.c', 'h/mu_stub.c', 'lib/stubs_common.c'], d, PI_X, kind='bounded', smallset=True, hunwind=34,
       bound='table of %d processes and %d CPUs, every well formed content; 4 process ids' % (n, n), functions=[PI_OPS[op]], **kw)
PI_EXPL = ('Every operation is verified with CBMC against an exact reference transition of the process table, from an arbitrary well formed table, so one call per obligation covers every history. '
  'Blocking variants run with an environment that may, each time the lock is taken again, let any other process notice its change or leave.')
PI_ASSUME = ['memory allocation succeeds', 'masks lie within the machine', 'no ancestor of a process is registered (the search in /proc is a stub)', 'while a blocking call waits, other processes notice changes or leave; they do not register or set masks',
  'each operation runs under the shared memory lock (its pairing is checked); the lock itself is pthread_mutex']
PI_TRUST = ['cbmc 6.11.0 and its C semantics', 'h/mu_stub.c: contracts of the mask utilities (verified under C12)', 'lib/stubs_common.c: output functions', 'lib/smallset: cpu_set_t narrowed to 64 CPUs',
  'extraction: the flexible array gets a fixed size', 'clock, usleep, shmem_init/finalize, pthread_mutex (stubs in h/procinfo.c)']
def piprop(jobs, **kw):
    return Prop([pi(*j, **kw) for j in jobs] + [pi(*j, n=4, tier='thorough', timeout=3000, **kw) for j in jobs], level='other', trusted=PI_TRUST, assumptions=PI_ASSUME, explanation=PI_EXPL)
PROPS['C07'] = piprop([(o,) for o in PI_OPS] + [(o, 1) for o in ('SET', 'GET', 'PREINIT')], only=r'\[inv\]')
PROPS['C08'] = piprop([(o,) for o in ('SET', 'GET', 'POLL')] + [(o, 1) for o in ('SET', 'GET')] + [(o, 0, 1) for o in ('SET', 'GET', 'POLL')])
PROPS['C09'] = piprop([(o,) for o in ('SET', 'PREINIT', 'FINALIZE', 'POSTFINALIZE', 'RECOVER')] + [(o, 1) for o in ('SET', 'PREINIT')])
PROPS['C10'] = piprop([(o,) for o in ('INIT', 'PREINIT', 'FINALIZE', 'POSTFINALIZE', 'CLEANUP', 'LISTS')] + [(o, 0, 1) for o in ('INIT', 'PREINIT', 'FINALIZE', 'POSTFINALIZE', 'CLEANUP', 'RECOVER')])

# ---------------------------------------------------------------- C23 API layer
KX = [(f, []) for f in ('LB_core/DLB_kernel.c', 'LB_core/lb_funcs.c', 'LB_core/spd.c', 'apis/DLB_interface.c', 'apis/DLB_interface_sp.c', 'apis/DLB_interface_drom.c')] + [('apis/dlb.h.in', [('sub', '@DLB_VERSION_HEXA@', '0x30500')])]
def kj(name, defs, fns, **kw):
    return Job('kernel_' + name, ['h/kernel.c', 'lib/stubs_common.c'], dict({'NCPUS_AT_CONFIGURE_TIME': 8}, **defs), KX, unwind=70, kind=kw.pop('kind','proved'), smallset=True, functions=fns, object_bits=10, inc=['/repo/src/apis'], **kw)
PROPS['C23'] = Prop([kj('api', {'API': 1}, ['DLB_kernel.c: lend* reclaim* acquire* borrow* return* set/unset_max_parallelism check_cpu_availability set_lewi_enabled poll_drom*', 'DLB_interface.c: every LeWI call']),
  kj('api_sp', {'API': 2}, ['DLB_interface_sp.c: every LeWI call']), kj('sync', {'OP_SYNCCALL': None}, ['into_sync_call, out_of_sync_call, set_observer_role']),
  kj('table', {'OP_TABLE': None}, ['set_lb_funcs']), kj('initfin', {'OP_INITFIN': None}, ['DLB_Init, Initialize, DLB_Finalize, Finish, DLB_PreInit, PreInitialize']), kj('sp', {'OP_SP': None}, ['DLB_Init_sp, DLB_Finalize_sp, spd_register, spd_unregister'])]
  + [kj('race_' + n, {'OP_RACE': i + 1}, [f], kind='bounded', bound='two threads, sequentially consistent memory, all interleavings') for i, (n, f) in enumerate((('init', 'DLB_Init'), ('fini', 'DLB_Finalize'), ('preinit', 'DLB_PreInit'), ('enable', 'DLB_Enable, set_lewi_enabled')))], level='other',
  trusted=['cbmc 6.11.0 and its C semantics', 'h/kernel.c: recording contracts for the modules below (tables under C01-C10, callbacks under C27, TALP, barriers, options): any result allowed by their documentation', 'lib/stubs_common.c'],
  assumptions=['fork and atfork handlers are not modelled', 'the glib tree of subprocesses stores what is inserted (g_tree_* stand-ins)'],
  explanation='Each API call is run from an arbitrary descriptor state with arbitrary arguments and arbitrary results of the layer below; postconditions on what is called, with which arguments, what is returned and how the descriptor changes. No loop over unbounded data is involved, so these groups are complete; the concurrency groups are bounded to two threads.')
SETMASK = kj('setmask', {'OP_SETMASK': None}, ['DLB_DROM_SetProcessMask, DLB_DROM_GetProcessMask, drom_setprocessmask, drom_getprocessmask'])
PROPS['C08'].jobs.append(SETMASK); PROPS['C23'].jobs.append(SETMASK)
# ---------------------------------------------------------------- C27 callbacks
PROPS['C27'] = Prop([Job('callbacks_%s' % n, ['h/callbacks.c', 'lib/stubs_common.c'], {'FN': i, 'NCPUS': 5, 'NCPUS_AT_CONFIGURE_TIME': 5}, [('LB_numThreads/numThreads.c', [])], unwind=12, hunwind=12, kind='proved' if i < 2 else 'bounded', bound='machine of 5 CPUs, every mask' if i == 2 else '',
  smallset=True, functions=[f]) for i, (n, f) in enumerate((('set_get', 'pm_callback_set, pm_callback_get, pm_finalize'), ('threads', 'update_threads'), ('dispatch', 'set_mask, set_process_mask, add_mask, add_process_mask, enable_cpu, disable_cpu, enable_cpu_set, disable_cpu_set')))],
  level='other', trusted=['cbmc 6.11.0 and its C semantics', 'h/mu_stub.c: contracts of the mask utilities (verified under C12)', 'lib/stubs_common.c'], explanation='Registration, lookup, dispatch and fall-backs of the callbacks from an arbitrary set of registered callbacks, for every mask and CPU.')
# ---------------------------------------------------------------- C06 classic LeWI
LW_X = [('LB_policies/lewi.c', []), ('LB_comm/comm_lend_light.c', [('sub', r'shdata->idleCpus', 'CELL(shdata->idleCpus)')])]
def lw(name, defs, **kw): return Job('lewi_' + name, ['h/classic.c', 'lib/stubs_common.c'], dict({'NCPUS_AT_CONFIGURE_TIME': 8}, **defs), LW_X, unwind=8, functions=['lewi.c: every policy function; comm_lend_light.c: releaseCpus, acquireCpus, checkIdleCpus, ConfigShMem, finalize_comm'], smallset=True, **kw)
PROPS['C06'] = Prop([lw('init', {'OP_INIT': None}, kind='proved'), lw('ops', {}, kind='proved'), lw('env', {'ENV': None, 'NOT_GREEDY': None}, kind='proved'), lw('env_greedy', {'ENV': None, 'GREEDY_OPS': None, 'BIG': 1000, 'CAS_FAILS': 1}, kind='bounded', bound='at most one failed compare-and-swap in a call, counter below 1000; any changes of the counter by others before every access')], level='other',
  trusted=['cbmc 6.11.0 and its C semantics', 'shmem_init, shmem_finalize, update_threads (recorded)', 'lib/stubs_common.c', 'extraction: every access to the shared counter is wrapped, so that other processes may change it just before'],
  explanation='Every function of the classic policy from an arbitrary state; other processes change the shared counter before any access.')

# ---------------------------------------------------------------- C28 asynchronous LeWI without masks
AS_X = [('LB_policies/lewi_async.c', []), ('LB_comm/shmem_lewi_async.c', [('flexptr', 'processes')]), ('support/queues.h', [('sub', 'QUEUE_LEWI_REQS_SIZE = 256', 'QUEUE_LEWI_REQS_SIZE = 4')])]
AS_OPS = (('INIT', 'Init, init'), ('FULL', 'Init, Finalize of a process without room'), ('CRASH', 'cleanup_shmem'), ('FIN', 'Finalize, finalize, reset_process'), ('LEND', 'Lend, LendCpus, lend_cpus, lend_keep_cpus, lend_ncpus_to_shmem'), ('BLOCK', 'IntoBlockingCall'),
   ('RECLAIM', 'Reclaim, OutOfBlockingCall, reclaim, reclaim_from_shmem'), ('ACQUIRE', 'AcquireCpus, acquire_cpus, remove_requests'), ('BORROW', 'Borrow, BorrowCpus, borrow_cpus'), ('DISABLE', 'Disable, reset, reset_process'), ('ENABLE', 'Enable'))
def lewi_as(o, f, m, maxc, tier): return Job('async_%s_%d%s' % (o.lower(), m, '' if tier == 'quick' else '_wide'), ['h/async.c', 'lib/stubs_common.c'], {'OP_' + o: None, 'ME': m, 'MAXC': maxc, 'NP': 3, 'NCPUS_AT_CONFIGURE_TIME': 8}, AS_X, unwind=5, hunwind=6, kind='bounded',
   bound='3 processes, each with up to %d CPUs and requested CPUs' % maxc, smallset=True, tier=tier, timeout=400 if tier == 'quick' else 850, functions=['lewi_async.c and shmem_lewi_async.c: ' + f])
PROPS['C28'] = Prop([lewi_as(o, f, m, 15, 'quick') for o, f in AS_OPS for m in range(3)] + [lewi_as(o, f, m, 127, 'thorough') for o, f in AS_OPS for m in range(3) if o in ('LEND', 'FIN', 'ACQUIRE', 'RECLAIM', 'DISABLE')], level='other',
   trusted=['cbmc 6.11.0 and its C semantics', 'request list by its contract (verified under C11)', 'shmem_init/lock/unlock and the message queue of other processes (recorded)', 'lib/stubs_common.c'],
   explanation='Every policy call runs the real policy and shared table code from an arbitrary consistent table of three processes; the request list is used through its contract.')

# ---------------------------------------------------------------- C15 typed option values
TY_FLAGS = ('verbose_opts', 'verbose_fmt', 'instrument_items', 'debug_opts', 'talp_summary', 'omptool_opts')
TY_ENUM = ('lewi_affinity', 'talp_model', 'policy', 'mode', 'mpiset', 'omptm_version', 'bool', 'negated_bool')
def ty(name, defs, fns, **kw): return Job('types_' + name, ['h/opt_types.c', 'lib/stubs_common.c'], dict({'NCPUS_AT_CONFIGURE_TIME': 8}, **defs), [('support/types.c', [])], unwind=kw.pop('unwind', 30), hunwind=kw.pop("hunwind", 34), kind=kw.pop('kind', 'proved'), functions=fns, **kw)
PROPS['C15'] = Prop([ty(n, {'TY': 10 + i, 'SINGLE': None}, ['parse_%s, %s_tostr, equivalent_%s' % (n, n, n)]) for i, n in enumerate(TY_ENUM)]
  + [ty('list_' + n, {'TY': i, 'TOKENS': None}, ['parse_' + n]) for i, n in enumerate(TY_FLAGS) if i != 3]
  + [ty('round_' + n, dict({'TY': i, 'ROUND': None}, **({'READ_BACK': None} if i == 3 else {})), ['%s_tostr' % n], unwind=140, hunwind=132) for i, n in enumerate(TY_FLAGS)]
  + [ty('int', {'INTS': None}, ['parse_int'])], level='other', trusted=['cbmc 6.11.0 and its C semantics', 'libc: strtol, strtok_r, strstr, sprintf (by their contracts)'], explanation='Single names: every text (the parsers stop at the first difference, so 20 characters stand for any length). Lists: any number of names, the tokeniser forgets and restores an arbitrary prefix. Printing: every set of flags, against the documented names.')

# ---------------------------------------------------------------- C14 options
OPT_D = [('sub', r'char(\s+)(var_name|arg_name|default_value|description)\[\w+\];', r'const char *\2;')]
OPT_R = [('support/options.c', OPT_D + [('sub', r'^static\s+void\s+parse_dlb_args\s*\(', 'static void real_parse_dlb_args(')])]
def op(name, defs, fns, **kw): return Job('options_' + name, ['h/opts.c', 'lib/stubs_common.c'], dict({'NCPUS_AT_CONFIGURE_TIME': 8}, **defs), kw.pop('x', OPT_R), unwind=kw.pop('unwind', 45), hunwind=kw.pop('hunwind', 45), kind=kw.pop('kind', 'proved'), smallset=True, functions=fns, object_bits=12, **kw)
PROPS['C14'] = Prop([op('defaults', {'OP_INIT': None, 'DEFAULTS': None}, ['options_init, options_finalize, set_value']), op('init', {'OP_INIT': None}, ['options_init, options_finalize, set_value, set_ptr_path_value, values_are_equivalent']), *[op('vars_%d' % f, {'OP_VARS': None, 'FROM': f, 'TO': f + 8}, ['options_set_variable, options_get_variable, get_entry_by_name, get_value, set_value']) for f in range(0, 40, 8)], op('unknown', {'OP_VARS': None, 'UNKNOWN': None}, ['options_set_variable, options_get_variable, get_entry_by_name']),
  *[op('entry_%d' % f, {'OP_ENTRY': None, 'FROM': f, 'TO': f + 8}, ['options_parse_entry, copy_value']) for f in range(0, 40, 8)], *[op('flags%d' % n, {'OP_ARGS': None, 'LEN': n}, ['parse_dlb_args'], x=[('support/options.c', OPT_D)], kind='bounded', bound='lists of up to %d characters among blank, tab, and the characters of the words' % n, unwind=n + 2, hunwind=n + 3, weight=60, tier=t, timeout=850) for n, t in ((7, 'quick'), (8, 'thorough'))]], level='other',
  trusted=['cbmc 6.11.0 and its C semantics', 'libc: snprintf, strtok_r, strchr, getenv (by their contracts)', 'value parsers by contract (verified under C15)', 'extraction: names and defaults of options are pointers to text instead of fixed arrays; file names up to 63 characters'], explanation='Every combination of sources for every option; the lookup of one option in a list of flags is bounded by the length of the list.')

# ---------------------------------------------------------------- C16 node barriers
BA_X = [('LB_comm/shmem_barrier.c', [('sub', r'barrier_t\s+barriers\[0?\];', 'barrier_t *barriers;')]), ('LB_core/node_barrier.c', [])]
def ba(name, defs, fns, bound='a table of 3 barriers, every content', **kw): return Job('barrier_' + name, ['h/barrier.c', 'lib/stubs_common.c'], dict({'NCPUS_AT_CONFIGURE_TIME': 8}, **defs), BA_X, unwind=13, hunwind=13, kind='bounded', bound=bound, smallset=True, functions=fns, object_bits=10, **kw)
PROPS['C16'] = Prop([ba('shared', {'OP_SHM': None}, ['shmem_barrier__find, register, attach, detach']), ba('wait', {'OP_WAIT': None}, ['node_barrier, shmem_barrier__barrier']), ba('rounds', {'OP_ROUNDS': None}, ['node_barrier, shmem_barrier__barrier'], bound='a table of 3 barriers, every content; two consecutive rounds'), ba('crash', {'OP_CRASH': None}, ['cleanup_shmem (barriers)']),
  ba('select', {'OP_SELECT': None}, ['parse_lewi_barrier'], bound='names of up to 2 and lists of up to 5 characters')] + [ba(n + str(sel), {'OP_NODE': i, 'SEL': sel}, ['node_barrier_' + n + ' over shmem_barrier.c']) for i, n in enumerate(('register', 'attach', 'detach', 'finalize', 'init')) for sel in range(3) if not (sel and i in (2, 3))], level='other',
  trusted=['cbmc 6.11.0 and its C semantics', 'pthread barriers and read-write locks, shmem_init/lock/unlock (contract stubs that record use)', 'into_sync_call, out_of_sync_call (verified under C23)', 'lib/stubs_common.c'],
  assumptions=['the locks make each operation atomic (their use is checked)', 'a process that dies while others still take part: only free places are verified (the table does not record who takes part)', 'named barriers are not called default'],
  explanation='Each operation runs the real process-level and shared code from an arbitrary well formed table and process list.')

# ---------------------------------------------------------------- C17 asynchronous helpers
HP_X = [('LB_comm/shmem_async.c', [('sub', r'helper_t\s+helpers\[0?\];', 'helper_t *helpers;'), ('sub', r'QUEUE_SIZE = 100', 'QUEUE_SIZE = 5')])]
def asy(name, defs, fns, kind='proved', unwind=9, **kw): return Job('helpers_' + name, ['h/helpers.c', 'lib/stubs_common.c'], dict({'NCPUS_AT_CONFIGURE_TIME': 8}, **defs), HP_X, unwind=unwind, hunwind=9, kind=kind, smallset=True, functions=fns, object_bits=10, timeout=kw.pop('timeout', 150), **kw)
AB = '2 helpers (code: number of CPUs), queue of 5 messages (code: 100), every content'
PROPS['C17'] = Prop([asy('send', {'OP_SEND': None}, ['shmem_async_*, enqueue_message, get_helper'], kind='bounded', bound=AB), asy('take', {'OP_TAKE': None, 'NH': 1}, ['dequeue_message'], kind='bounded', bound=AB), *[asy('helper%d%d%d' % (n, pre, pos), {'OP_HELPER': None, 'NH': 1, 'NMSG': n, 'PRE': pre, 'SPUR': pos & 1, 'POS': pos}, ['thread_start, dequeue_message, enqueue_message'], kind='bounded', bound='up to 3 announcements, several positions in the ring', unwind=9) for n, pre, pos in ((0, 0, 1), (2, 0, 3), (2, 2, 4), (2, 0, 2), (3, 3, 3))],
  asy('init', {'OP_INIT': None}, ['shmem_async_init'], kind='bounded', bound=AB), asy('finalize', {'OP_FINALIZE': None}, ['shmem_async_finalize'], kind='bounded', bound=AB), asy('crash', {'OP_CRASH': None}, ['cleanup_shmem (async)'], kind='bounded', bound=AB)], level='other',
  trusted=['cbmc 6.11.0 and its C semantics', 'pthread mutexes, condition variables and threads, shmem_init/lock/unlock (contract stubs that record use)', 'enable_cpu, disable_cpu, ... (verified under C27)', 'lib/stubs_common.c'],
  assumptions=['a process does not overrun the queue of 99 pending announcements (the library aborts then)', 'the locks make each operation atomic (their use is checked)', 'an announcement made while its process leaves may be dropped'],
  explanation='Each operation runs the real code from an arbitrary table of helpers; the helper loop runs against other processes announcing changes whenever it waits.')

# ---------------------------------------------------------------- C19 TALP regions
TA_X = [('LB_core/DLB_talp.c', []), ('support/gslist.c', []), ('support/gslist.h', [])]
def ta(name, defs, fns, kind='bounded', bound='up to 3 threads and 3 regions, times below 2^34 ns', unwind=5, **kw): return Job('talp_' + name, ['h/talp.c', 'lib/stubs_common.c'], dict({'NCPUS_AT_CONFIGURE_TIME': 8}, **defs), TA_X, unwind=unwind, hunwind=6, kind=kind, bound=bound, smallset=True, functions=fns, object_bits=10, timeout=kw.pop('timeout', 500), **kw)
TA_R = ('start', 'stop', 'reset', 'update')
TA_E = ('into_sync', 'out_of_sync', 'thread_end', 'into_function', 'barrier', 'into_omp_sync', 'out_of_omp_sync', 'task_create', 'task_complete', 'task_switch', 'thread_begin', 'parallel_begin')
TA_FN = dict(zip(TA_E, ('talp_into_sync_call', 'talp_out_of_sync_call', 'talp_openmp_thread_end', 'talp_openmp_into_parallel_function', 'talp_openmp_into_parallel_implicit_barrier', 'talp_openmp_into_parallel_sync', 'talp_openmp_outof_parallel_sync', 'talp_openmp_task_create', 'talp_openmp_task_complete', 'talp_openmp_task_switch', 'talp_openmp_thread_begin', 'talp_openmp_parallel_begin')))
PROPS['C19'] = Prop([ta('%s_%s' % (n, w), {'OP_REGION': i, 'NTH': th, 'OWN': o}, ['monitoring_region_%s, monitoring_regions_update_all, talp_aggregate_samples, talp_update_sample, talp_get_thread_sample' % n]) for i, n in enumerate(TA_R) for w, th, o in (('mine', 2, 1), ('new', 2, -1), ('first', 0, -1)) if i < 2 or w == 'mine']
  + [ta('%s_observer' % n, {'OP_REGION': i, 'NTH': 1, 'OWN': -1, 'OBS': 1}, ['monitoring_region_%s' % n]) for i, n in enumerate(TA_R) if i != 2] + [ta('%s_observer' % n, {'OP_EVENT': i, 'NTH': 1, 'OWN': -1, 'OBS': 1}, [TA_FN[n]]) for i, n in enumerate(TA_E) if i < 2] + [ta('%s_papi' % n, {'OP_REGION': i, 'NTH': 2, 'OWN': 1, 'PAPI_LIB': 1}, ['monitoring_region_%s with hardware counters' % n]) for i, n in enumerate(TA_R) if i < 2]
  + [ta('update_papi_new', {'OP_REGION': 3, 'NTH': 2, 'OWN': -1, 'PAPI_LIB': 1}, ['monitoring_regions_force_update with hardware counters'])]
  + [ta('%s_off' % n, {'OP_EVENT': i, 'NTH': 1, 'OWN': 0, 'TALP': 0}, [TA_FN[n] + ' without TALP']) for i, n in enumerate(TA_E)]
  + [ta('%s_%s' % (n, w), {'OP_EVENT': i, 'NTH': th, 'OWN': o}, [TA_FN[n]]) for i, n in enumerate(TA_E) for w, th, o in (('mine', 2, 0), ('new', 1, -1))]
  + [ta('parallel_end_%d_%d' % (l, n), {'OP_PARALLEL': None, 'NTH': 3, 'OWN': 0, 'LEVEL': l, 'TEAM': n}, ['talp_openmp_parallel_end, talp_aggregate_samples_parallel'], bound='up to 3 threads and 3 regions, times up to 2^5 ns apart', tier='quick' if n < 3 else 'thorough', timeout=500 if n < 3 else 850) for l in (1, 2) for n in (1, 2, 3)], level='other',
  trusted=['cbmc 6.11.0 and its C semantics', 'pthread mutexes (contract stubs that record use)', 'shmem_talp__*, PAPI, clock (recorded)', 'lib/stubs_common.c'], assumptions=['time does not go back', 'allocations succeed', 'a thread begins its OpenMP life once'], explanation='Each operation runs the real code from arbitrary regions and thread records; one law for all of them: what an open region gains is exactly what the threads have left behind.')
