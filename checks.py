"""The registered checks: per property the harness runs, bounds and what they assume."""
import json, os
VERIF = os.path.dirname(os.path.abspath(__file__))

# parts of the library that most harnesses never reach and that take long to compile
HEAVY = r'BlockDescription|^ConfLoader/|BlockEval|DeviceInfoUtils|DocUtils|DotMarkup|StatsJSON|DumpJSON|MakeJSON|BufferConvert|GccClang|^Init|Proxy/Builtin/ConvertContainers|ConvertVectors|MupOctal'
SEQ_ASSUME = ['The library is compiled from /repo/lib by g++ -O1 with the definitions of the official build; the SIMD sources are not part of that build.']
THR_ASSUME = SEQ_ASSUME + ['Threads run one at a time and switch only at synchronisation operations; accesses between them are checked for data races with the memory orders used, so code without races behaves the same on real threads.',
    'Non-sequentially-consistent values of racing atomics are not enumerated (their ordering effect is, through happens-before).']

CHECKS = {}
def check(prop, level, technique, note, runs, bounds='', assumptions=SEQ_ASSUME, rule=''):
    for r in runs: r.setdefault('name', prop.lower() + '_' + os.path.splitext(r['harness'])[0])
    CHECKS[prop] = dict(level=level, technique=technique, note=note, runs=runs, bounds=bounds, assumptions=assumptions, rule=rule)

check('L01', 'model_checking', 'explicit-state exploration of all operation sequences on the real containers against a reference sequence',
      'Exhaustive up to the stated depth on the real code, under AddressSanitizer with counted elements.',
      [dict(harness='l01_queues.cpp', variant='asan', exclude='.')],
      bounds='see scenarios')

check('C01', 'model_checking', 'stateless model checking of the real locks: all interleavings of all small lock programs, with vector-clock race detection',
      'Every schedule of the listed programs within the preemption bound (unbounded where stated) is executed on the real lock code; memory orders are judged by happens-before.',
      [dict(harness='c01_spinlocks.cpp', variant='mc', exclude='.')], assumptions=THR_ASSUME)

check('S01', 'model_checking', 'explicit-state exploration of all delivery/consume/reserve sequences on the real accumulator, buffer managers and worker against the plain stream',
      'Exhaustive up to the stated depth on the real code.',
      [dict(harness='s01_accum.cpp', variant='asan', exclude=HEAVY), dict(harness='s01_stream.cpp', variant='asan', exclude=HEAVY)])

check('S02', 'model_checking', 'explicit-state exploration of all handle operation sequences on the real buffer managers, chunks, accumulator and pool, with memory and return monitors',
      'Exhaustive up to the stated depth on the real code.',
      [dict(harness='s02_refs.cpp', variant='asan', exclude=HEAVY), dict(harness='s02_threads.cpp', variant='mc', exclude=HEAVY)], assumptions=THR_ASSUME)

check('S03', 'model_checking', 'explicit-state exploration of all post / produce / consume / remove sequences on the real ports and worker against lists of (element, label)',
      'Exhaustive up to the stated depth on the real code.',
      [dict(harness='s03_labels.cpp', variant='asan', exclude=HEAVY)])

check('S04', 'model_checking', 'explicit-state exploration of all post / emit / call / pop / work sequences on the real ports and workers against per-connection queues',
      'Exhaustive up to the stated depth on the real code.',
      [dict(harness='s04_messages.cpp', variant='asan', exclude=HEAVY)])

check('S05', 'model_checking', 'explicit-state exploration of all arrival / release / work-action / activation sequences on the real worker against the stated gating rule',
      'Exhaustive up to the stated depth on the real code.',
      [dict(harness='s05_gating.cpp', variant='asan', exclude=HEAVY)])

check('B01', 'model_checking', 'explicit-state exploration of all port set-up / automatic creation / removal / subscription sequences on the real block against a list of ports',
      'Exhaustive up to the stated depth on the real code.',
      [dict(harness='b01_ports.cpp', variant='asan', exclude=HEAVY)])

check('D01', 'model_checking', 'exhaustive enumeration of all type names, aliases, spellings, dimensions, constructions and type pairs on the real code against a table of the C++ types',
      'Exhaustive over the listed names, spellings and dimensions, and over all short unknown names.',
      [dict(harness='d01_dtype.cpp', variant='asan', exclude=HEAVY)])

check('O01', 'model_checking', 'explicit-state exploration of all handle operation sequences on the real Object against a reference graph, and stateless model checking of all small multi-threaded handle programs',
      'Exhaustive up to the stated depth / preemption bound on the real code; values count their constructions and destructions, accesses are checked for races.',
      [dict(harness='o01_object.cpp', variant='asan', exclude=HEAVY), dict(harness='o01_threads.cpp', variant='mc', exclude=HEAVY)], assumptions=THR_ASSUME)

# what the Object checks need: conversions of containers included
CONV = HEAVY.replace('Proxy/Builtin/ConvertContainers|ConvertVectors|', '')
check('O02', 'model_checking', 'exhaustive enumeration of all numeric type pairs over all small-type values and all boundary values, all short text / containers, and all register / remove / convert sequences, on the real conversions against exact arithmetic',
      'Exhaustive over the listed values and sequences on the real code.',
      [dict(harness='o02_convert.cpp', variant='asan', exclude=CONV)],
      assumptions=SEQ_ASSUME + ['Vector conversions that the library delegates to its SIMD sources use an element-wise cast instead, since those sources are not part of this build.'])

check('O03', 'model_checking', 'exhaustive enumeration of all pairs of boundary values of all numeric types, all short texts and all type combinations, and all register / remove sequences, on the real comparison, hash and print code against exact arithmetic',
      'Exhaustive over the listed values and sequences on the real code.',
      [dict(harness='o03_compare.cpp', variant='asan', exclude=CONV)])

check('O04', 'model_checking', 'exhaustive enumeration of all boundary numbers, all registered kinds and all nested values up to a depth, each cut at every byte, on the real archive, object and datagram code',
      'Exhaustive over the listed values and all cut points on the real code, under AddressSanitizer.',
      [dict(harness='o04_archive.cpp', variant='asan', exclude=CONV)])

check('K01', 'model_checking', 'explicit-state exploration of all bind / unbind / copy histories and exhaustive enumeration of all argument tuples over all overload sets, on the real callables, blocks, managed classes and block factories',
      'Exhaustive over the listed functions, argument values and histories on the real code.',
      [dict(harness='k01_calls.cpp', variant='asan', exclude=CONV)])

check('E01', 'model_checking', 'exhaustive enumeration of all short texts over character and token alphabets, all small expression trees, number spellings and constant histories, on the real evaluator against a reference parser',
      'Exhaustive over the listed alphabets, lengths and depths on the real code, under AddressSanitizer.',
      [dict(harness='e01_eval.cpp', variant='asan', exclude=CONV.replace('|MupOctal', ''))],
      assumptions=SEQ_ASSUME + ['The muparserx library as installed; numbers stay below 2^53, which is what it represents exactly.'])

check('P01', 'model_checking', 'explicit-state exploration of all add / remove / handler and module load / unload histories on the real registry against a reference tree, and enumeration of all short path texts',
      'Exhaustive up to the stated depth on the real code; modules are stand-ins whose loading runs registrations.',
      [dict(harness='p01_registry.cpp', variant='asan', exclude=HEAVY)])

check('P02', 'model_checking', 'stateless model checking of the real registry and of the tables kept by its handlers: all interleavings of all small multi-threaded programs, results compared with all sequential orders, with vector-clock race detection',
      'Every schedule of the listed programs within the preemption bound is executed on the real code.',
      [dict(harness='p02_threads.cpp', variant='mc', exclude=HEAVY)], assumptions=THR_ASSUME)

TOPO = CONV.replace('DumpJSON|', '').replace('ConvertVectors|', '')
check('T01', 'model_checking', 'explicit-state exploration of all connect / disconnect histories on real topologies, and enumeration of all nested designs over sets of possible edges, committed on real blocks and compared with the composition of edges',
      'Exhaustive up to the stated depth / over the stated sets of edges on the real code.',
      [dict(harness='t01_edit.cpp', variant='plain', exclude=TOPO)])

check('T02', 'model_checking', 'explicit-state exploration of all edit / commit histories on real topologies of real blocks, with blocks that refuse activation, deactivation or a buffer manager at any commit; flows, activation windows and reports compared with the flattened design after every step',
      'Exhaustive up to the stated depth of operations on the real code; states of the running system are recognised and not explored twice.',
      [dict(harness='t02_commit.cpp', variant='plain', exclude=TOPO)])

check('T04', 'model_checking', 'enumeration of all descriptions within a number of deviations from a complete one, against a reference reading of the description; enumeration of all nested designs over sets of possible edges, against what their dumps must list',
      'Every description and design in the stated sets is given to the real code.',
      [dict(harness='t04_json.cpp', variant='asan', exclude=TOPO)])

check('M01', 'model_checking', 'fault enumeration: every request the real code makes to the system (open, ftruncate, mmap, munmap) is granted, refused once, refused from then on, or misplaced by a mapping of someone else, in all combinations up to a number of faults, inside all histories of making and dropping buffers',
      'Every combination of up to the stated number of faults over the real sequence of system calls, including all retries.',
      [dict(harness='m01_maps.cpp', variant='plain', exclude=HEAVY)], assumptions=['The interposed system calls answer like Linux: a hinted mmap that cannot be placed is placed elsewhere.'])

check('A01', 'model_checking', 'exploration of all interleavings (preemption bounded where stated) of worker threads and external callers on the real actor interface and on a real block, under a controlled scheduler with a happens-before race check',
      'All schedules within the stated preemption bounds of every pair of external operations with the worker.',
      [dict(harness='a01_exclusion.cpp', variant='mc', exclude=HEAVY)], assumptions=THR_ASSUME)

check('A02', 'model_checking', 'exploration of all interleavings (preemption bounded where stated) of threads that flag changes, call, deliver or return buffers with the worker of a block; an execution in which only timers and polling remain is a missed change',
      'All schedules within the stated preemption bounds of every (pair of) event kinds with the worker, waiting and polling.',
      [dict(harness='a02_changes.cpp', variant='mc', exclude=HEAVY)], assumptions=THR_ASSUME)

check('A03', 'model_checking', 'exploration of all interleavings within a preemption bound of the pool threads and the threads editing the pool, for every history of registrations up to a depth and every pool size, on the real thread pool',
      'All histories to the stated depth times all schedules within the stated preemption bounds.',
      [dict(harness='a03_pool.cpp', variant='mc', exclude=HEAVY)], assumptions=THR_ASSUME)

check('S06', 'model_checking', 'exploration of all interleavings within a preemption bound of real blocks that are worked by threads of their own, with threads feeding ports and returning buffers; a happens-before race check follows every memory access including the stream contents',
      'All schedules within the stated preemption bounds of each scenario.',
      [dict(harness='s06_delivery.cpp', variant='mc', exclude=HEAVY)], assumptions=THR_ASSUME)

check('T03', 'model_checking', 'exploration of all interleavings within a deviation bound of a real committed topology with its pool threads, the threads of the commit and the editing thread',
      'All schedules within the stated deviation bounds of each scenario.',
      [dict(harness='t03_running.cpp', variant='mc', exclude=TOPO)], assumptions=THR_ASSUME)

check('R01', 'model_checking', 'exploration of all interleavings within a preemption bound of threads calling through one real remote environment, times all orders of the replies and all connection failures at a reply boundary',
      'All schedules within the stated preemption bounds times all server behaviours of each scenario.',
      [dict(harness='r01_transact.cpp', variant='mc', exclude=HEAVY)], assumptions=THR_ASSUME)

check('R02', 'model_checking', 'explicit-state exploration of all histories of remote operations against the same operations on local objects; enumeration of all bytes at which a session may be cut or its framing damaged, and of all requests over sets of actions, names and identities, on the real client and server',
      'Exhaustive over the listed operations to the stated depth, all cut points of a session, and all listed requests, under AddressSanitizer.',
      [dict(harness='r02_remote.cpp', variant='asan', exclude=HEAVY)])

check('D02', 'model_checking', 'exhaustive enumeration of all element type pairs, vector lengths, counts, output sizes and boundary values at every position, and of all append histories, on the real buffer conversions and joins against exact arithmetic and byte strings',
      'Exhaustive over the listed types, values and counts / up to the stated depth on the real code.',
      [dict(harness='d02_convert.cpp', variant='asan', exclude=HEAVY.replace('BufferConvert|', ''))],
      assumptions=SEQ_ASSUME + ['The conversions that the library delegates to its SIMD sources use an element-wise cast instead, since those sources are not part of this build.'])

NOT_CLAIMED = {}

def write_manifest():
    props = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[],
             notes='All checks build /repo/lib from source with their own harness; see DESIGN.md.')
    for p in props:
        if p in CHECKS:
            c = CHECKS[p]
            m['checks'].append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                evidence_file='evidence/%s.json' % p, technique=c['technique'], level=c['level'], level_note=c['note']))
        else: m['not_applicable'].append(dict(property=p, reason=NOT_CLAIMED.get(p, 'The check for this property is not built yet.')))
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
