"""What each check builds and runs."""

_SANF = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
SAN = {
    # name: (compiler, compile flags, link flags)
    'asan':  ('clang++', ['-O0', '-g1', '-w'] + _SANF, []),
    'asan1': ('clang++', ['-O1', '-g1', '-w'] + _SANF, []),
    'gasan': ('g++', ['-O1', '-g1', '-w', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC'] + _SANF, []),
    'asan20': ('clang++', ['-std=c++20', '-O1', '-g1', '-w'] + _SANF, []),
    'plain': ('clang++', ['-O1', '-g1', '-w'], []),
    'o2':    ('clang++', ['-O2', '-g1', '-w'], []),
    'cov':   ('clang++', ['-O1', '-g1', '-w', '-fsanitize-coverage=trace-pc-guard'], []),
    'gtsan': ('g++', ['-O1', '-g1', '-w', '-fsanitize=thread'], ['-pthread']),
    'tsan':  ('clang++', ['-O1', '-g1', '-w', '-fsanitize=thread'], ['-pthread']),
    'vg':    ('clang++', ['-O1', '-g', '-w'], []),
}

def _dso_link(d, cxx, cflags, lflags, exe):
    import os
    lib = os.path.join(d, 'libdso.so')
    return [[cxx] + cflags + ['-shared', os.path.join(d, 'dso_lib.o')] + lflags + ['-o', lib],
            [cxx] + cflags + ['-rdynamic', os.path.join(d, 'core.o'), os.path.join(d, 'dso_main.o'), lib] + lflags +
            ['-Wl,-rpath,' + d, '-o', exe]]


PROGRAMS = {
    # UBSan's vptr check compares std::type_info objects by address
    'dso': {'src': ['core', 'dso_lib', 'dso_main'], 'flags': ['-fPIC', '-fvisibility=hidden', '-fno-sanitize=vptr'], 'link': _dso_link},
    'engine': {
        'src': ['core', 'check', 'ops_single', 'ops_poly', 'ops_range', 'ops_erase', 'ops_copy', 'ops_eq', 'ops_reg', 'main'],
        'cost': {'ops_range': 3, 'ops_single': 3, 'check': 2},
    },
    'algo': {'src': ['core', 'algo_a', 'algo_b', 'algo_c', 'algo_d', 'algo_main'], 'cost': {'algo_a': 3, 'algo_b': 3, 'algo_c': 3}},
    'race': {'src': ['core', 'race']},
    'cost': {'src': ['core', 'cost', 'edges']},
    'odd': {'src': ['core', 'odd']},
    'pmr': {'src': ['core', 'pmr']},
    'scale': {'src': ['core', 'scale', 'scale_algo'], 'cost': {'scale': 4, 'scale_algo': 2}},
}


def progs(prog, mode, quick, thorough, kinds=(0, 1, 2), quick_defs=((),), thorough_defs=None, thorough_sans=('asan', 'gasan', 'asan20'),
          quick_sans=('asan',)):
    """Runs of another program, one unit per kind and set of definitions."""
    def runs(tier):
        r = []
        for san in (quick_sans if tier == 'quick' else thorough_sans):
            for k in kinds:
                for d in (quick_defs if tier == 'quick' or thorough_defs is None else thorough_defs):
                    r.append({'prog': prog, 'san': san, 'defs': ['KIND=%d' % k] + list(d), 'mode': mode,
                              'cases': quick if tier == 'quick' else thorough})
        return r
    return runs


def scale(*quick_kinds):
    """Many types, large segments."""
    def runs(tier):
        ks, sans, n = (quick_kinds, ('asan',), 300) if tier == 'quick' else ((0, 1, 2), ('asan', 'gasan'), 3000)
        return [{'prog': 'scale', 'san': s, 'defs': ['KIND=%d' % k], 'mode': 'scale', 'cases': n} for s in sans for k in ks]
    return runs


def both(*fs):
    return lambda tier: [r for f in fs for r in f(tier)]


def engine(mode, quick, thorough, kinds=(0, 1, 2), alloc=None, thorough_alloc=None, thorough_sans=('asan', 'gasan', 'asan20')):
    """Runs of the operation engine. alloc: {kind: [allocator propagation bits]}"""
    def runs(tier):
        r = []
        al = alloc
        if tier == 'thorough' and thorough_alloc is not None:
            al = thorough_alloc
        for san in (('asan',) if tier == 'quick' else thorough_sans):
            for k in kinds:
                for b in (al[k] if al else [None]):
                    defs = ['KIND=%d' % k] + ([] if b is None else ['PCV_ALLOC=%d' % b])
                    n = quick if tier == 'quick' else thorough
                    r.append({'prog': 'engine', 'san': san, 'defs': defs, 'mode': mode, 'cases': n})
        return r
    return runs


ENGINE_RULE = ('A case is a random history of public operations on 2-3 collections of one kind over 8 element types '
               '(move-only, non-assignable, over-aligned, throwing-move, non-comparable, derived...), checked after every '
               'operation against a reference model through every view of the collection; a situation is distinct and '
               'non-trivial when its combination (operation, overload, element type, position class, size/capacity class) '
               'was not seen before')
ASSUME = ['the reference model and the monitors are correct', 'clang 18 / libstdc++ on x86-64 only',
          'only executions produced by the workload are judged']


TECH = 'runtime monitoring: random operation histories under ASan/UBSan/LSan, reference-model and lifetime monitors'
NOTE = ('Held on the executions produced (counts in evidence): every public view of every collection compared with a '
        'reference model after each operation, tracked element lifetimes, sanitizer reports fatal. No claim beyond them.')
ALL = list(range(16))


def eng(runs, technique=TECH, note=NOTE, **kw):
    d = {'runs': runs, 'rule': ENGINE_RULE, 'assumptions': ASSUME, 'technique': technique, 'note': note}
    d.update(kw)
    return d


ALGO_RULE = ('A case is a random collection (and a second one), random predicates/relations and the ranges [i,j) of it, on which '
             'every algorithm of the library is run next to its std counterpart, with and without type restitution; a situation is '
             'distinct when (segment shape, i, j, algorithm, restituted types, constness) was not seen before')


CHECKS = {
    'C01': eng(both(engine('mod', 1500, 20000, alloc={0: [None], 1: [None, 6], 2: [None]}, thorough_alloc={0: [None, 9], 1: [None, 6], 2: [None, 2]}), scale(0, 1))),
    'C02': eng(both(engine('view', 2400, 20000), scale(0, 2))),
    'C03': eng(both(engine('reg', 1500, 20000), progs('dso', 'dso', 400, 20000), scale(1))),
    'C04': eng(engine('life', 1200, 15000, alloc={0: [None, 4], 1: [None, 3], 2: [None]}, thorough_alloc={0: [None, 4, 3], 1: [None, 3], 2: [None, 0]})),
    'C05': eng(both(engine('fault', 1200, 6000, alloc={0: [0], 1: [1], 2: [2]},
                           thorough_alloc={0: [0, 3, 7], 1: [1, 4, 8], 2: [2, 5, 15]}), scale(1)),
               technique='runtime monitoring with fault injection: every fault point of the last operation of a history fails in turn',
               note='Every element operation and allocation inside the chosen operation is made to throw in turn; histories are sampled.',
               level='fault_enumeration', must_observe=['faults_injected']),
    'C06': eng(both(engine('stab', 1800, 15000, alloc={0: [None], 1: [None], 2: [None, 3]}, thorough_alloc={0: [None, 8], 1: [None, 4], 2: [None, 3]}), scale(0, 1))),
    'C07': eng(both(engine('copy', 1500, 20000, alloc={0: [None, 4], 1: [None], 2: [None, 4]}, thorough_alloc={0: [None, 4, 3], 1: [None, 4, 3], 2: [None, 4, 3]}), scale(0, 2))),
    'C08': eng(both(engine('alloc', 1000, 4000, alloc={0: [5, 10], 1: [3], 2: [12]}, thorough_alloc={0: ALL, 1: ALL, 2: ALL},
                           thorough_sans=('asan',)),
                    *[progs('pmr', 'pmr', 1500, 30000, kinds=(k,), quick_defs=(('ALSET=%d' % k,),),
                            thorough_defs=(('ALSET=0',), ('ALSET=1',), ('ALSET=2',))) for k in range(3)]),
               technique='runtime monitoring: allocation log of tracking allocators and memory resources over random histories, ASan/UBSan'),
    'C09': eng(both(engine('eq', 1500, 20000, alloc={0: [None], 1: [None, 8], 2: [None]}, thorough_alloc={0: [None, 0], 1: [None, 8], 2: [None, 15]}),
                    progs('dso', 'dso', 300, 10000), scale(0, 2))),
    'C10': {
        'runs': both(progs('algo', 'algo', 1500, 12000, quick_defs=(('LISTSET=0',),), thorough_defs=(('LISTSET=0',), ('LISTSET=1',), ('LISTSET=2',))), scale(0)),
        'rule': ALGO_RULE, 'assumptions': ASSUME,
        'technique': 'runtime monitoring: differential execution of every algorithm against its std counterpart, call-sequence monitors, ASan/UBSan',
        'note': 'Result, output and sequence of element accesses of every algorithm compared with the std algorithm over the same elements, for ranges of random collections (all ranges of small ones).',
    },
    'C11': {
        'runs': both(progs('algo', 'algo', 1500, 12000, quick_defs=(('LISTSET=1',),), thorough_defs=(('LISTSET=1',), ('LISTSET=2',), ('LISTSET=0',))),
                     progs('dso', 'dso', 400, 20000), scale(1)),
        'rule': ALGO_RULE, 'assumptions': ASSUME,
        'technique': 'runtime monitoring: static type and address of every element passed to user functions compared with the element, ASan/UBSan',
        'note': 'Each call of a user function records the static type it was instantiated with; it must be the concrete type exactly when that type is listed. Sampled collections, ranges and type lists.',
    },
    'C13': eng(both(engine('ident', 500, 6000), progs('odd', 'odd', 6000, 100000), progs('dso', 'dso', 400, 10000)),
               technique='runtime monitoring: identity probes through the polymorphic interface after every operation of random histories, ASan/UBSan'),
    'C12': eng(engine('excp', 1500, 20000, alloc={0: [None, 0], 1: [None], 2: [None]}, thorough_alloc={0: [None, 0], 1: [None, 4], 2: [None, 3]})),
    'C14': {
        'runs': progs('race', 'race', 9000, 150000, quick_sans=('tsan',), thorough_sans=('tsan', 'gtsan')),
        'rule': 'A case is 2-4 threads running random programs of const operations on shared collections, writes to distinct elements and '
                'arbitrary work on collections of their own, with delays injected in element operations; a situation is distinct when a pair '
                'of operations of different threads, in progress at the same time, with their order of begin and end, was not seen before',
        'assumptions': ASSUME, 'must_observe': ['overlapping_operations'],
        'technique': 'race detection (ThreadSanitizer) over stress schedules; results of threads compared with a single-threaded twin',
        'note': 'ThreadSanitizer judges the happens-before relation of each executed schedule; schedules are sampled, with injected delays.',
    },
    'C15': {
        'runs': progs('cost', 'cost', 15000, 80000, quick_sans=('cov',), thorough_sans=('cov',)),
        'rule': 'A case measures one operation on one element type at two sizes a factor 16 (64 for repeated insertion) apart, and with other '
                'segments a factor 40 larger: edges executed, element operations per type, allocations; a situation is distinct when '
                '(operation, element type, distance to the end) was not seen before',
        'assumptions': ASSUME + ['work is measured in executed control-flow edges of the instrumented headers, element operations and allocations, not in time'],
        'technique': 'runtime monitoring of executed work: edge counters (SanitizerCoverage), counting elements and allocators, growth compared with the documented order',
        'note': 'Growth between sampled sizes, with generous constant factors; not a proof of an asymptotic bound.',
    },
}
