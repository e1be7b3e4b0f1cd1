"""Definitions behind properties.jsonl and MANIFEST.json (written by gen.py)."""
D = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note='', technique=None, na=None):
    D.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=list(state), observe=list(observe), level_note=level_note, technique=technique, na=na))
TECH = 'function contracts on the real C code, obligations discharged by CBMC'
CIF = ['src/LB_comm/shmem_cpuinfo.c']
CI_NOTE = ('Every public operation on the shared CPU table is verified against a Hoare contract from an arbitrary well formed table (reachable or not), so one call per obligation covers every history. '
  'Bounded in the number of CPUs (2-4, with 1 and 2 hardware threads per core) and queue entries; trusted: CBMC, the mask and queue contracts (verified under C11/C12), the lock itself.')
P('C01', 'A CPU is used by at most one process and changes hands only by the rules',
  'Whatever sequence of LeWI lend, reclaim, acquire, borrow, return, register and finalize calls the processes of a node issue, a CPU in use by one process is never given to another one, a non-owner only gets a CPU while its owner has lent it, and on SMT nodes a borrowed core is never shared between processes. The owner of a CPU is never changed by LeWI calls, only the owner changes whether it is lent or claimed, and every callback (enable/disable) names an existing CPU at most once and goes to the process that gains or must leave that CPU.',
  ['histories', 'inputs', 'configurations'], 'every table state, every caller, every argument, with and without SMT and request queues',
  'Tests run a few hand-written call sequences on one machine shape; the guarantee quantifies over every interleaving of calls of all processes and over every table state those can produce.',
  CIF, [('exclusive hand-over of CPUs', 'src/LB_comm/shmem_cpuinfo.c: lend_cpu, reclaim_cpu, acquire_cpu, borrow_cpu, return_cpu'), ('eligibility of a core', 'src/LB_comm/shmem_cpuinfo.c: core_is_eligible')],
  [('owner, guest, state', 'who owns, uses and has lent each CPU', 'src/LB_comm/shmem_cpuinfo.c: cpuinfo_t')], ['callbacks returned by each operation', 'CPU table in shared memory'], CI_NOTE)
P('C02', 'The owner of a CPU gets it back when it reclaims; lent and returned CPUs obey it',
  'When a process reclaims CPUs it owns (one, some, a mask or all), each of them that is idle is recovered at once and each of them used by another process is marked as claimed, with that process told to leave and the owner told to come back; CPUs of others are refused and left alone. A process asked to return CPUs gives every claimed CPU back to its owner, and lending makes a CPU idle or hands it back to the owner that claims it; every result code tells exactly whether something was recovered, is pending, or nothing changed.',
  ['histories', 'inputs', 'configurations'], 'every well formed table, every CPU, count and mask (also out of range)', 'Tests sample a handful of reclaim/return sequences with two processes; result codes and effects for mixed masks and SMT cores are not reached.',
  CIF, [('reclaim', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__reclaim_*'), ('return', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__return_*'), ('lend', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__lend_*'), ('availability', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__check_cpu_availability')],
  [('state', 'lent, busy or disabled', 'src/LB_comm/shmem_cpuinfo.c')], ['result code and callbacks of each operation'], CI_NOTE)
P('C03', 'Acquire and borrow obtain exactly the CPUs asked for, within every limit',
  'An acquire or borrow of one CPU, a number of CPUs or a mask only obtains CPUs in the request, never more than asked for or than the maximum parallelism allows (rounded up to a core on SMT nodes), and obtains every idle lent CPU the request allows while it is not satisfied; acquire also recovers owned CPUs from their guests, borrow never disturbs anybody. The result code tells exactly whether something was obtained, is pending, or nothing changed, and a lowered maximum leaves the process with no more CPUs than the limit.',
  ['histories', 'inputs', 'configurations'], 'every well formed table, every request size, candidate list, limit and affinity policy', 'Tests use fixed machine layouts and counts; the limits must hold for every combination of table state, list and limit.',
  CIF, [('acquire/borrow', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__acquire_*, shmem_cpuinfo__borrow_*'), ('limit', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__update_max_parallelism')],
  [('guest', 'process using each CPU', 'src/LB_comm/shmem_cpuinfo.c')], ['result code and callbacks of each operation'], CI_NOTE)
P('C04', 'Registering and leaving LeWI keep the CPU table consistent',
  'Registering a process succeeds exactly when no CPU of its mask is owned by another process (or stealing is requested), then it owns its whole mask and nothing else changes; a refused registration changes nothing. When a process leaves, dies or changes its mask, it owns and uses none of the CPUs it gave up, CPUs still used by other processes are not taken from them, every CPU left idle is either handed to whoever is entitled to it or becomes available, and counts and thread bindings reported by queries match the table.',
  ['histories', 'inputs', 'crash_points'], 'every well formed table, every mask, with or without queued requests, and death of a process in any table state', 'Tests register a few fixed masks; teardown while other processes use the CPUs, and death in arbitrary states, are not enumerated.',
  CIF, [('register', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__init, shmem_cpuinfo_ext__preinit'), ('leave', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__finalize, shmem_cpuinfo__deregister, cleanup_shmem'), ('change', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__update_ownership, shmem_cpuinfo__reset')],
  [('owner', 'registered process of each CPU', 'src/LB_comm/shmem_cpuinfo.c')], ['CPU table', 'result codes', 'callbacks'], CI_NOTE)
P('C05', 'Queued requests are served in order and never outlive their process',
  'In asynchronous mode a request that cannot be served is queued, and when a CPU becomes available it goes to its claiming owner first, then to the oldest request for that CPU, then to the oldest general request that allows it; requests not served keep their order and amounts. A CPU outside LeWI is never granted, and no request of a process remains once the process cancels its requests, leaves, dies, or becomes the owner of the CPU.',
  ['histories', 'inputs', 'crash_points'], 'every well formed table with any queued requests', 'Tests queue one or two requests in a fixed order; order and amounts must be right for every queue content and every operation that frees a CPU.',
  CIF, [('serving requests', 'src/LB_comm/shmem_cpuinfo.c: find_new_guest'), ('queueing', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__acquire_cpu, shmem_cpuinfo__return_async_cpu'), ('dropping', 'src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__remove_requests, shmem_cpuinfo__deregister')],
  [('requests', 'pending requests per CPU and general', 'src/LB_comm/shmem_cpuinfo.c')], ['CPU table', 'callbacks'], CI_NOTE)
P('C06', 'Classic LeWI counts every CPU exactly once',
  'Under the classic LeWI policy a process never gains or loses CPUs without the shared counter of idle CPUs losing or gaining the same number, whatever other processes do to that counter in the middle of a call. Lending keeps one CPU (or none in a blocking call that keeps none), reclaiming or leaving a blocking call restores the own CPUs (in greedy mode also all idle ones), borrowing takes no more than is idle, asked for and allowed by the maximum parallelism, and returns borrowed CPUs that others need; disabling and finalising leave the process with exactly its own CPUs. The program is told once about each change.',
  ['histories', 'inputs', 'schedules'], 'every state of the process and of the shared counter, every argument, any change of the counter by others before each access', 'Tests run one or two processes in a fixed order; a lost or duplicated CPU needs a change of the counter between two accesses.',
  ['src/LB_policies/lewi.c', 'src/LB_comm/comm_lend_light.c'], [('policy', 'src/LB_policies/lewi.c'), ('counter', 'src/LB_comm/comm_lend_light.c: releaseCpus, acquireCpus, checkIdleCpus')], [('idleCpus', 'shared counter of idle CPUs', 'src/LB_comm/comm_lend_light.c'), ('myCPUS', 'CPUs in use', 'src/LB_policies/lewi.c')], ['number of threads announced', 'shared counter'],
  'Complete for single calls (32-bit counters within +-100000); greedy mode under interference bounded to one failed compare-and-swap per call. CPUs of a process that dies are not restored (the counter does not know them).')
P('C28', 'LeWI without masks shares CPUs exactly, also with requests and crashes',
  'Under the asynchronous policy without masks, idle CPUs plus the CPUs in use always equal the CPUs the registered processes own. A process lends exactly what it says, gets back all its own CPUs when it reclaims, takes at most the idle ones beyond that, and what it could not get is queued; another process only receives CPUs it asked for, only gives back CPUs it borrowed (and is queued for them again), and is told its new number once. No process waits while CPUs are idle. A disabled process has exactly its own CPUs and no request, enabling asks again for exactly what was pending, a process that leaves or dies leaves no entry or request and the others can still get all their CPUs.',
  ['histories', 'inputs', 'crash_points'], 'every consistent table, every request state, caller and argument', 'Tests run a few scripted exchanges; requests, reclaims and disabling combine in many more ways.',
  ['src/LB_policies/lewi_async.c', 'src/LB_comm/shmem_lewi_async.c'], [('exchange', 'src/LB_comm/shmem_lewi_async.c: lend_ncpus_to_shmem, reclaim_from_shmem, reset_process'), ('policy', 'src/LB_policies/lewi_async.c'), ('death', 'src/LB_comm/shmem_lewi_async.c: cleanup_shmem')],
  [('shdata', 'idle CPUs, requests, processes', 'src/LB_comm/shmem_lewi_async.c')], ['number of threads announced', 'messages to other processes', 'shared table'],
  'Three processes, up to 15 CPUs and requested CPUs each (127 in the thorough tier); the request list is used through its contract (verified under C11). After a crash CPUs borrowed from the dead process stay in use until their users give them back.')
PIF = ['src/LB_comm/shmem_procinfo.c']
PI_NOTE = ('Every operation on the process table is verified against an exact reference transition from an arbitrary well formed table. Bounded: 3 processes and 3 CPUs (4 in the thorough tier); blocking variants run against '
  'an environment in which other processes notice changes or leave at every point where the table is unlocked. Trusted: CBMC, the mask contracts (verified under C12), the lock.')
P('C07', 'Process masks never overlap and every CPU is accounted for',
  'Unless CPU sharing is enabled, whatever DROM calls processes and managers issue (register, preregister, set mask, poll, recover, leave, die), the masks of the registered processes, counting pending changes, never overlap, and each CPU of the machine is at any time either in the mask of exactly one process or in the free set. A process is registered at most once and the table is left unlocked by every call.',
  ['histories', 'inputs', 'crash_points', 'schedules'], 'every well formed process table, every mask and flag combination, with other processes reacting or leaving while a blocking call waits',
  'Tests use two processes and fixed masks; overlaps come from combinations of pending changes, steals and departures that they do not reach.',
  PIF, [('mask changes', 'src/LB_comm/shmem_procinfo.c: set_new_mask, steal_mask, register_mask, unregister_mask'), ('leave', 'src/LB_comm/shmem_procinfo.c: shmem_procinfo__finalize, shmem_procinfo_ext__postfinalize, cleanup_shmem')],
  [('process_info, free_mask', 'mask of each process and free CPUs', 'src/LB_comm/shmem_procinfo.c')], ['masks of processes', 'free CPUs'], PI_NOTE)
P('C08', 'A mask change is delivered once and completely; a refused one leaves no trace',
  'Setting the mask of a process succeeds exactly when its CPUs are free, its own, or held by processes without a pending change; then exactly the processes concerned get a pending change, each with exactly its new mask, which a poll delivers once together with its size. A refused request (unknown process, pending change, unavailable CPUs, sharing mode) changes nothing. Querying a mask reports the one the process has or is about to have, and a blocking request returns success only once all processes concerned have taken up their new masks.',
  ['histories', 'inputs', 'schedules'], 'every well formed process table, every mask, pid and flag, blocking or not', 'Tests exercise single changes on fixed masks; refusals in the middle of multi-process changes and time-outs are not sampled.',
  PIF, [('set', 'src/LB_comm/shmem_procinfo.c: shmem_procinfo__setprocessmask'), ('get', 'src/LB_comm/shmem_procinfo.c: shmem_procinfo__getprocessmask'), ('poll', 'src/LB_comm/shmem_procinfo.c: shmem_procinfo__polldrom')],
  [('dirty, future mask', 'pending change of each process', 'src/LB_comm/shmem_procinfo.c')], ['result codes, masks returned'], PI_NOTE)
P('C09', 'CPUs taken from a process are remembered, returned and rolled back',
  'When a process takes CPUs from others, each of those CPUs is recorded with the process it came from until it gets it back; when the taker gives the CPUs up or leaves with return of stolen CPUs requested, each CPU goes back to a process that lost it, otherwise it becomes free and its former holder can recover it. A preregistration or mask change whose victims do not react in time is undone: they keep exactly the CPUs they had, or the change remains pending as a whole.',
  ['histories', 'inputs', 'schedules', 'crash_points'], 'every well formed process table, with every record of stolen CPUs', 'Tests steal once and return once; chains of steals, victims that leave and failed steals are not covered.',
  PIF, [('steal', 'src/LB_comm/shmem_procinfo.c: steal_mask'), ('return', 'src/LB_comm/shmem_procinfo.c: unregister_mask'), ('recover', 'src/LB_comm/shmem_procinfo.c: shmem_procinfo_ext__recover_stolen_cpus')],
  [('stolen_cpus', 'CPUs taken from each process', 'src/LB_comm/shmem_procinfo.c')], ['masks of processes after a steal, a return and a failed steal'], PI_NOTE)
P('C10', 'DROM registration, inheritance and departure keep an exact process list',
  'A process registers exactly when it is not registered yet, there is room, and its CPUs are free; a process started from a preregistered entry inherits that entry, with the mask it has by then, in full, in part or expanded by free CPUs, and a refused registration changes nothing and does not keep the shared memory open. Leaving or dying clears the entry and frees its CPUs, the table is reset with the last process, sharing and non-sharing processes never mix, and process lists contain exactly the registered processes and never exceed the given length.',
  ['histories', 'inputs', 'crash_points', 'configurations'], 'every well formed process table, every pid, inherited pid and mask, with and without CPU sharing', 'Tests register into empty or nearly empty tables; registered-twice, full, inherited and clashing cases combine.',
  PIF, [('register', 'src/LB_comm/shmem_procinfo.c: shmem_procinfo__init, shmem_procinfo__init_with_cpu_sharing, shmem_procinfo_ext__preinit'), ('leave', 'src/LB_comm/shmem_procinfo.c: shmem_procinfo__finalize, cleanup_shmem'), ('lists', 'src/LB_comm/shmem_procinfo.c: shmem_procinfo__getpidlist')],
  [('process_info', 'registered processes', 'src/LB_comm/shmem_procinfo.c')], ['result codes, masks and lists returned'], PI_NOTE)
P('C11', 'Request queues never lose, duplicate or reorder requests',
  'A request queue holds exactly the requests put into it and not yet taken out, in the order of arrival: taking, searching, walking, deleting an entry or removing all entries of a process returns or drops the right ones and keeps the order of the others; a full queue refuses new entries and changes nothing, and an entry already present is not duplicated where the queue promises so. The classic LeWI request list keeps one entry per process with its total, and sharing out free CPUs gives out no more than there are, no process more than it asked for, and differs by at most one between processes still waiting.',
  ['histories', 'inputs'], 'every ring position, fill level and content of the queue', 'Tests push and pop a few entries from an empty queue; wrap-around positions, deletions in the middle and full queues combine in too many ways.',
  ['src/support/queue_template.h', 'src/support/queues.c'], [('ring queue', 'src/support/queue_template.h'), ('classic requests', 'src/support/queues.c: queue_lewi_reqs_*')], [('ring', 'head, tail and entries', 'src/support/queue_template.h')], ['return values', 'dequeued entries'],
  'The ring queue is instantiated at capacity 8 (the per-CPU capacity; proved for every rotation and fill level) and 5 (records); the general queue runs the same template at 1024.')
P('C12', 'CPU masks and machine layout queries compute exactly the right CPUs',
  'Intersection, union, difference, comparison, counting and search on CPU masks give exactly the right CPUs for every mask and machine size and write nothing beyond the machine; no query reads beyond the machine for CPU or core ids out of range. Core and node queries (core of a CPU, cores and nodes touched by or contained in a mask, whole cores, next core) match the machine layout also when core ids are interleaved or CPUs are missing, and the orders by ownership and affinity are total orders that list owned CPUs first, then nearby ones, in the documented wrap-around order.',
  ['inputs', 'configurations'], 'every mask, CPU id and core id on machines of several sizes and layouts', 'Tests use a few masks on one or two layouts; every decision of the library is taken on these masks.',
  ['src/support/mask_utils.c', 'src/support/mask_utils.h'], [('mask algebra', 'src/support/mask_utils.c: mu_and, mu_or, mu_get_next_cpu, ...'), ('layout', 'src/support/mask_utils.c: mu_get_core_mask, mu_get_nodes_*, mu_get_cores_*'), ('orders', 'src/support/mask_utils.c: mu_cmp_cpuids_by_ownership, mu_cmp_cpuids_by_affinity')], [('sys', 'machine description', 'src/support/mask_utils.c')], ['masks and ids returned'],
  'Machines of exactly 64, 65 and 192 CPUs (quick) and up to 1024 (thorough) with every mask; 5 layouts for topology queries; orders on 8 CPUs and 3 layouts.')
P('C14', 'Every option takes its value from the documented source',
  'At start each option gets its own value: the one in DLB_ARGS, otherwise the one given to DLB_Init, otherwise its own environment variable, otherwise its documented default; a text that is not valid for the option counts as its default, and a deprecated option counts only if it is given and valid. In a list of flags the last occurrence of an option counts, --option and --no-option mean yes and no, the text after the first equals sign is the value, and words of other options stay exactly as they are. Later, an option is read and changed by name in any case, fixed options and unknown names are refused with their codes, and nothing else changes.',
  ['inputs', 'configurations'], 'every combination of sources, valid or not, for every option; every short list of flags; every option name', 'Forty options times three sources times valid or not; tests set a few options from one source.',
  ['src/support/options.c'], [('sources', 'src/support/options.c: options_init, options_parse_entry'), ('flag list', 'src/support/options.c: parse_dlb_args'), ('access by name', 'src/support/options.c: options_set_variable, options_get_variable')], [('options', 'option values', 'src/support/options.h')], ['option values', 'result codes'],
  'Sources and access by name are complete for the value parsers contract (C15) and texts shorter than a field; the flag list is bounded to 7 (quick) and 8 (thorough) characters.')
P('C15', 'Option values are read, printed and compared consistently',
  'Reading a value accepts exactly the documented names (single values, in any case) or numbers that fit, and changes nothing when it refuses; a list is the union of its documented items and ignores unknown ones; yes and no have their documented meaning. Printing any value gives text that reads back as the same value, whatever was printed before, and stays within its buffer. Two texts are equivalent exactly if both are valid and mean the same value.',
  ['inputs', 'histories'], 'every text, every list of items and every combination of flags of each option type', 'Tests print and read a few values of each type.',
  ['src/support/types.c'], [('values', 'src/support/types.c: parse_*, *_tostr, equivalent_*')], [('value', 'typed option values', 'src/support/types.h')], ['values and texts'],
  'Complete for all option types except list parsing of debug options (substring search), for which reading back what is printed is verified. libc string functions by contract.')
KF = ['src/LB_core/DLB_kernel.c', 'src/LB_core/lb_funcs.c', 'src/apis/DLB_interface.c', 'src/apis/DLB_interface_sp.c', 'src/apis/DLB_interface_drom.c', 'src/LB_core/spd.c']
P('C16', 'A node barrier opens exactly when all of its participants have arrived',
  'A barrier always waits for exactly the processes that take part in it: registering, attaching, detaching and finalising change that number by one for the named barrier only, no other barrier changes, a name has one place in the table, a place is reused only when nobody takes part and its name, mode and counters then start afresh, and a process that ends leaves every barrier it was in. A process that takes part waits exactly once per call and the barrier can be used again; one that does not is refused and does not wait. When the barrier lends, a process that has to wait lends its CPUs before and recovers them after, exactly once; the last to arrive does not. Whether it lends follows the call, the option and the list of names. A process that dies never makes a free place unusable.',
  ['histories', 'inputs', 'configurations'], 'every table content (names, participants, modes), process list and call', 'Tests create one or two barriers and call them in order.',
  ['src/LB_comm/shmem_barrier.c', 'src/LB_core/node_barrier.c'], [('table', 'src/LB_comm/shmem_barrier.c'), ('process list', 'src/LB_core/node_barrier.c')],
  [('barriers', 'table of barriers in shared memory', 'src/LB_comm/shmem_barrier.c: barrier_t'), ('barrier_list', 'barriers of the process', 'src/LB_core/node_barrier.c: barrier_info_t')], ['participants, return codes, waiting, lending'],
  'Bounded: tables of 3 barriers, every content; lists of names of up to 5 characters. pthread barriers and locks by contract. A process that dies while others take part is decided for free places only (the table does not record who takes part).')
P('C17', 'Changes announced to a process reach its program once and in order',
  'With asynchronous mode, every change announced to a process (CPUs enabled or disabled, one or a mask, or a number of CPUs) is queued for the helper of exactly that process, behind the earlier ones and as it was announced, and the helper is woken up; the helper hands every announcement to the callbacks of its process once, in order, never sleeps while announcements wait, and ends only after all of them. A process without helper, or whose helper is leaving or whose process died, is not written to. A helper appears if there is room, takes one place and starts empty; a refused one leaves nothing behind; a removed one frees its place after its thread has ended, and the shared memory is left with the last helper of the process.',
  ['histories', 'inputs', 'schedules', 'crash_points'], 'every table of helpers, position in the ring and announcement; other processes announce changes whenever the helper waits', 'Tests send a few messages to one helper at the start of an empty ring.',
  ['src/LB_comm/shmem_async.c'], [('queue', 'src/LB_comm/shmem_async.c: enqueue_message, dequeue_message'), ('helper', 'src/LB_comm/shmem_async.c: thread_start'), ('life', 'src/LB_comm/shmem_async.c: shmem_async_init, shmem_async_finalize, cleanup_shmem')],
  [('helpers', 'table of helpers in shared memory', 'src/LB_comm/shmem_async.c: helper_t'), ('queue', 'ring of announcements of a helper', 'src/LB_comm/shmem_async.c: message_t')], ['callbacks invoked, in order', 'wake-ups', 'return codes'],
  'Bounded: 2 helpers, a ring of 5 announcements (code: 100), histories of up to 3 announcements per helper loop. pthread objects by contract; a process does not overrun the ring (the library aborts then).')
P('C19', 'Every moment of every thread is credited once to exactly the open TALP regions',
  'A monitoring region is open exactly once from its start until it is stopped or reset. While it is open it gains exactly the time that all measured threads spend in each state (useful, MPI, outside and inside OpenMP parallel regions), the MPI calls, parallels and tasks, and the hardware counters, each once; nothing from before its start or after its stop, and a closed region gains nothing, also when the thread that starts or stops it is new. Start, stop, update and blocking MPI calls bring all threads up to the same moment; stopping adds the time since the start and one measurement; resetting clears a region only. Excluded regions and observer threads are refused without effect. At the end of a parallel region the waiting of the least waiting thread counts as scheduling and the rest as load imbalance.',
  ['histories', 'inputs', 'schedules'], 'every content of regions and thread records, every state of every thread, every event', 'Tests start and stop regions in fixed orders with one or two threads and compare a few sums.',
  ['src/LB_core/DLB_talp.c'], [('regions', 'src/LB_core/DLB_talp.c: monitoring_region_start, monitoring_region_stop, monitoring_region_reset, monitoring_regions_update_all'), ('samples', 'src/LB_core/DLB_talp.c: talp_update_sample, talp_aggregate_samples, talp_aggregate_samples_parallel, talp_get_thread_sample'), ('events', 'src/LB_core/DLB_talp.c: talp_into_sync_call, talp_out_of_sync_call, talp_openmp_*')],
  [('open_regions', 'open regions, innermost first', 'src/LB_core/talp_types.h: talp_info_t'), ('samples', 'record of each thread', 'src/LB_core/talp_types.h: talp_sample_t')], ['times and counts of the regions', 'return codes'],
  'Bounded: up to 3 threads and 3 regions, times up to 2^34 ns; clock, PAPI and locks by contract. Registration by name, summaries and MPI reductions are not covered.')
P('C23', 'Every API call is gated, dispatched and initialised exactly as documented',
  'Before initialisation, without LeWI or while LeWI is disabled, every LeWI call is refused with the documented code and has no effect; otherwise it reaches exactly its function of the selected policy once, with the same arguments, descriptor and result, and what a policy does not provide is refused. DLB_Init, DLB_PreInit, DLB_Finalize, DLB_Enable and DLB_Disable take effect exactly once even when threads call them at the same time, initialisation registers the process only where its options ask for and reports the first refusal, finalisation leaves everything it registered in, and threads keep to the subprocess handler they use until it is finalised. Blocking calls of observer threads do not lend, and a polled or self-set DROM mask is applied and the CPU tables follow it.',
  ['histories', 'inputs', 'schedules', 'configurations'], 'every descriptor state, option set, argument and result of the layer below; two threads in every interleaving for the once-only calls', 'Tests call the API in ordinary order; refusals, partial failures and concurrent calls are not sampled.',
  KF, [('gating', 'src/LB_core/DLB_kernel.c'), ('dispatch', 'src/LB_core/lb_funcs.c: set_lb_funcs'), ('entry points', 'src/apis/DLB_interface.c, src/apis/DLB_interface_sp.c'), ('descriptor', 'src/LB_core/spd.c: spd_enter_dlb')],
  [('dlb_initialized, lewi_enabled', 'state of the (sub)process', 'src/LB_core/spd.h')], ['result codes', 'effects of the calls'],
  'Complete for single calls (no loops over unbounded data) with recording contracts for the modules below; concurrency bounded to two threads with sequentially consistent memory. A repeated DLB_Init after a failed one is refused until DLB_Finalize, by design.')
P('C27', 'Registered callbacks are called with the right CPUs, once each',
  'A callback registered for an event is returned by the query for that event and called with its own argument; when CPUs or masks change, the callback for that kind of change is called with exactly the CPUs concerned, and when it is not registered the documented fall-back (the whole mask for single CPUs, one call per CPU for masks) conveys the same change, every CPU exactly once; without any usable callback the caller is told so. The number of threads announced stays within 1 and the number of CPUs of the node.',
  ['inputs', 'configurations'], 'every subset of registered callbacks, every mask and CPU', 'There are many combinations of registered callbacks; tests register one fixed set.',
  ['src/LB_numThreads/numThreads.c'], [('dispatch', 'src/LB_numThreads/numThreads.c: enable_cpu, disable_cpu, enable_cpu_set, disable_cpu_set, set_mask, add_mask'), ('registration', 'src/LB_numThreads/numThreads.c: pm_callback_set, pm_callback_get')],
  [('pm', 'registered callbacks', 'src/LB_numThreads/numThreads.h')], ['callbacks invoked'], 'Masks on a machine of 5 CPUs; registration is complete. Trusted: CBMC and the mask contracts (verified under C12).')
