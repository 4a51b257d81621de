"""What is built and run for each property. cases=(quick, thorough). See run.py and DESIGN.md."""

import os

WRAP = '-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=aligned_alloc'
COMMON = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-pthread', '-w']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']

BUILDS = {
    'asan': dict(cc='clang++', flags=[*COMMON, '-O1', *ASAN]),
    'asan20': dict(cc='clang++', flags=['-std=c++20', *COMMON[1:], '-O1', *ASAN]),
    'gasan': dict(cc='g++', flags=[*COMMON, '-O1', *ASAN]),
    'gasan20': dict(cc='g++', flags=['-std=c++20', *COMMON[1:], '-O2', *ASAN]),
    'tsan': dict(cc='clang++', flags=[*COMMON, '-O1', '-fsanitize=thread']),
    'gtsan': dict(cc='g++', flags=[*COMMON, '-O1', '-fsanitize=thread']),
    'plain': dict(cc='clang++', flags=[*COMMON, '-O2']),
    'h-posix': dict(cc='clang++', flags=[*COMMON, '-O1', *ASAN, '-include', 'heap_posix.h']),
    'h-mm': dict(cc='g++', flags=[*COMMON, '-O1', *ASAN, '-include', 'heap_mm.h']),
    'h-manual': dict(cc='clang++', flags=[*COMMON, '-O1', *ASAN, '-include', 'heap_manual.h']),
    'debug': dict(cc='clang++', flags=[*COMMON, '-O1', *ASAN, '-DKTL_DEBUG_ASSERT']),
    'gdebug20': dict(cc='g++', flags=['-std=c++20', *COMMON[1:], '-O2', *ASAN, '-DKTL_DEBUG_ASSERT']),
    'dh-posix': dict(cc='clang++', flags=[*COMMON, '-O1', '-include', 'heap_posix.h']),
    'dh-mm': dict(cc='g++', flags=[*COMMON, '-O1', '-include', 'heap_mm.h']),
    'dh-manual': dict(cc='g++', flags=[*COMMON, '-O2', '-include', 'heap_manual.h']),
    'd-g17-O0': dict(cc='g++', flags=[*COMMON, '-O0']),
    'd-g20-O2': dict(cc='g++', flags=['-std=c++20', *COMMON[1:], '-O2']),
    'd-g17-O3': dict(cc='g++', flags=[*COMMON, '-O3']),
    'd-c17-O2': dict(cc='clang++', flags=[*COMMON, '-O2']),
    'd-c20-O0': dict(cc='clang++', flags=['-std=c++20', *COMMON[1:], '-O0']),
    'd-g17-assert': dict(cc='g++', flags=[*COMMON, '-O1', '-DKTL_DEBUG_ASSERT']),
    'meter': dict(cc='clang++', flags=[*COMMON, '-O1', '-fno-builtin', '-fsanitize-coverage=trace-pc']),
    'gmeter20': dict(cc='g++', flags=['-std=c++20', *COMMON[1:], '-O1', '-fno-builtin', '-fsanitize-coverage=trace-pc']),
    'd-c20-assert': dict(cc='clang++', flags=['-std=c++20', *COMMON[1:], '-O2', '-DKTL_DEBUG_ASSERT']),
}

GEN = ['gen.cpp', 'offers.cpp', 'memhook.cpp'] + ['subjects_%s.cpp' % c for c in 'abcdefg']

# The public headers. A header which is gone (renamed, merged) is no longer one that can be included
HEADERS = ['ktl.h', 'ktl_alloc_fwd.h', 'ktl_container_fwd.h']
HEADERS += ['allocators/%s%s.h' % (h, f) for f in ('', '_fwd') for h in ('cascading', 'fallback', 'freelist', 'global', 'linear_allocator', 'mallocator', 'null_allocator', 'overflow', 'reference', 'segragator',
                                                                        'shared', 'stack_allocator', 'threaded', 'type_allocator') if (h, f) != ('null_allocator', '_fwd')]
HEADERS += ['containers/%s.h' % h for h in ('binary_heap', 'binary_heap_fwd', 'packed_ptr', 'packed_ptr_fwd', 'trivial_array', 'trivial_array_fwd', 'trivial_buffer', 'trivial_vector', 'trivial_vector_fwd')]


def header_sources():
    root = os.path.join(os.environ.get('KTL_REPO', '/repo'), 'include', 'ktl')
    return ['c28.cpp', 'hdrfwd.cpp', ('hdrfwd.cpp', ['-DLATE'])] + [('hdr.cpp', ['-DHDR=<ktl/%s>' % h]) for h in HEADERS if os.path.exists(os.path.join(root, h))]


PROGRAMS = {
    'c28': dict(srcs=header_sources()),
    'gen': dict(srcs=GEN, wrap=True),
    'c06': dict(srcs=['c06.cpp']),
    'c07': dict(srcs=['c07.cpp']),
    'c08': dict(srcs=['c08.cpp']),
    'c10': dict(srcs=['c10.cpp']),
    'c11': dict(srcs=['c11.cpp']),
    'c12': dict(srcs=['c12.cpp', 'memhook.cpp'], wrap=True),
    'c13': dict(srcs=['c13.cpp']),
    'c14': dict(srcs=['c14.cpp']),
    'c15': dict(srcs=['c15.cpp']),
    'c16': dict(srcs=['c16.cpp', 'c16a.cpp', 'c16b.cpp', 'c16c.cpp']),
    'c09': dict(srcs=['c09.cpp', 'memhook.cpp'], wrap=True),
    'c17': dict(srcs=['c17.cpp', 'memhook.cpp'], wrap=True),
    'c30': dict(srcs=['c30.cpp', 'memhook.cpp'], wrap=True),
    'c19': dict(srcs=['c19.cpp'] + ['c19%s.cpp' % c for c in 'abcdefgh']),
    'c20': dict(srcs=['c20.cpp']),
    'c21': dict(srcs=['c21.cpp']),
    'c22': dict(srcs=['c22.cpp']),
    'c23': dict(srcs=['c23.cpp']),
    'c27': dict(srcs=['c27.cpp']),
    'c31': dict(srcs=['c31.cpp', 'memhook.cpp'], wrap=True),
    'c33': dict(srcs=['c33.cpp'] + [('c33.cpp', ['-DPART=%d' % i]) for i in range(10)]),
    'c34': dict(srcs=['c34.cpp']),
    'c35': dict(srcs=['c35.cpp']),
    'c36': dict(srcs=['c36.cpp']),
    'c37': dict(srcs=['c37.cpp']),
    'c38': dict(srcs=['c38.cpp']),
    'c39': dict(srcs=['c39.cpp'] + [('c39x.cpp', ['-DWITH=%d' % i]) for i in range(8)]),
    'c40': dict(srcs=['c40.cpp'], wrap=True, flags=['-fno-builtin-malloc', '-fno-builtin-free', '-fno-builtin-calloc', '-fno-builtin-realloc']),
    'c41': dict(srcs=['c41.cpp']),
    'c32': dict(srcs=['c32.cpp'] + ['subjects_%s.cpp' % c for c in 'abcdefg']),
}


VALGRIND = dict(wrapper=['valgrind', '-q', '--error-exitcode=99', '--track-origins=no', '--num-callers=20'], parts=4)


def R(program, build, quick, thorough, **kw):
    return dict(program=program, build=build, cases=(quick, thorough), **kw)


def gen(mode, build, quick, thorough, **kw):
    return R('gen', build, quick, thorough, env={'VF_MODE': mode}, **kw)


RETURNS = 'returned-|not-returned|bad-free|double-free|memory-kept|heap-blocks-remain|heap-lost|instances-lost|dropped-with-blocks|dropped-in-use|dropped-before-return|source-destroyed-first|returns-differ|wrong-size-returned|wrong-block-returned|wrong-return|asan-heap-use-after-free|asan-attempting|asan-bad-free'
MEMORY = 'asan-|ubsan-|tsan-|crash-|memcheck'


def heaps(mode, quick, thorough):
    """The other facilities of C heaps the library can be built on"""
    return [gen(mode, b, quick, thorough, parts=4) for b in ('h-posix', 'h-mm', 'h-manual')]


def everything():
    """All workloads, with small shares: what undefined behaviour is looked for in"""
    runs = [gen('none', b, 16000, 400000) for b in ('asan', 'gasan')] + [gen('none', b, 4000, 100000, parts=4) for b in ('h-posix', 'h-mm', 'h-manual', 'debug')]
    shares = dict(c06=(1, None), c07=(1, None), c08=(1, None), c09=(1, 'tidy'), c10=(1, None), c14=(1, None), c15=(1, None), c16=(1, None), c17=(1, None), c30=(1, None), c31=(1, None), c33=(2, None), c34=(1, None), c35=(1, None), c36=(1, None), c37=(1, None),
                  c20=(1, 'values'), c21=(1, 'values'), c22=(2, None), c23=(1, 'values'), c27=(2, None))
    # (those which take long to compile: with one compiler in the quick check)
    once = ('c06', 'c14', 'c15', 'c16', 'c30', 'c31', 'c33', 'c35', 'c36')
    for p, (share, mode) in shares.items():
        for b in ('asan', 'gasan'):
            runs.append(R(p, b, 0 if b == 'gasan' and p in once else 3000 * share, 60000 * share, env={'VF_MODE': mode} if mode else {}, parts=4))
    runs.append(R('c11', 'asan', 2000, 40000, parts=4))
    runs.append(R('c19', 'asan', 4000, 60000))
    runs.append(R('c32', 'asan', 1600, 40000, parts=8))
    runs.append(R('c23', 'asan', 3000, 60000, env={'VF_MODE': 'life'}, parts=4))
    # Uninitialised memory: valgrind sees every value a decision is made on
    runs.append(gen('none', 'd-c17-O2', 400, 16000, **VALGRIND))
    for p, (share, mode) in shares.items():
        runs.append(R(p, 'd-c17-O2', 0 if p in ('c16', 'c33') else 160, 8000, env={'VF_MODE': mode} if mode else {}, **VALGRIND))
    return runs


# The same client histories in every build configuration
CONFIGS = ['d-g17-O0', 'd-g20-O2', 'd-g17-O3', 'd-c17-O2', 'd-c20-O0', 'd-g17-assert', 'd-c20-assert']
HEAPS = ['dh-posix', 'dh-mm', 'dh-manual']


# What takes long to compile: both compilers with both language versions in the quick check, everything in the thorough one
FEW = ['d-g17-O3', 'd-g20-O2', 'd-c17-O2', 'd-c20-assert']
FEW2 = ['d-g17-assert', 'd-g20-O2', 'd-c17-O2', 'd-c20-O0']


def same(program, quick, thorough, builds=CONFIGS, mode=None, soon=CONFIGS):
    return [R(program, b, quick if b in soon or b in HEAPS else 0, thorough, env={'VF_MODE': mode} if mode else {}, digest=program, parts=8) for b in builds]


RULE_GEN = ('a case is a random client history (40-1500 operations: sizes around every boundary of the composition, powers of two, zero, exhaustion and refill phases, LIFO/FIFO/random/clustered returns) '
            'on one of about 90 compositions, round robin; the signature of a case is a hash of the composition, the sizes, the outcomes and the returns; a case is non-trivial if some allocation succeeded')

NOTE = 'Exploration: judged are the executions driven by the workload of this run (counted in the evidence file); trusted are the compilers, the sanitizer runtimes and the monitors in harness/.'


def C(technique, rule, runs, must, note='', assumptions=()):
    return dict(technique=technique, rule=rule, runs=runs, must_observe=must, note=(note + ' ' if note else '') + NOTE, assumptions=list(assumptions))


CHECKS = {
    'C01': C('shadow memory monitor (unique fill pattern per live block, interval map) under ASan+UBSan, random client histories', RULE_GEN,
             [gen('intact', 'asan', 80000, 1500000)], ['allocations', 'deallocations', 'refusals']),
    'C02': C('alignment monitor on every address handed out, random client histories under ASan+UBSan', RULE_GEN,
             [gen('align', 'asan', 40000, 800000)] + heaps('align', 8000, 100000), ['allocations']),
    'C03': C('heap and source fault injection with twin comparison and footprint ledger, under ASan+UBSan', RULE_GEN,
             [gen('clean', 'asan', 60000, 1000000)] + heaps('clean', 8000, 100000), ['impossible_requests', 'heap_denials', 'footprint_comparisons']),
    'C04': C('conservation ledger at recording sources and the wrapped C heap', RULE_GEN,
             [gen('ledger', 'asan', 80000, 1500000)] + heaps('ledger', 8000, 100000)
             + [R(p, 'asan', n, 30 * n, only=RETURNS) for p, n in (('c06', 8000), ('c08', 8000), ('c10', 12000), ('c15', 8000), ('c17', 12000), ('c30', 8000))] + [R('c09', 'asan', 6000, 120000, env={'VF_MODE': 'tidy'}, only=RETURNS)], ['ledger_checks', 'backing_checks', 'conservation_checks', 'heap_requests']),
    'C05': C('ownership oracle: every address asked is answered against the shadow of live blocks', RULE_GEN,
             [gen('owns', 'asan', 40000, 800000)], ['allocations', 'owns_probes', 'owns_not_offered', 'offers', 'arena_ends']),
    'C06': C('routing monitor: exact call log of recording sources against a list/threshold model', 'a case is a random history (10-200 requests and returns, sizes around all thresholds, refusing sources) on one of about 115 fallback and segragator compositions (hand-nested and built by the four builders with 1-17 parts, raw and typed shared); its signature hashes composition, sizes and routes; non-trivial if something was served',
             [R('c06', 'asan', 40000, 800000)], ['served_after_refusals', 'returns', 'refused']),
    'C07': C('online comparison with a reference arena model', 'a case is a random history (10-400 operations: exact fits, one too many, LIFO to random returns, drains, arenas assigned anew, copied and moved handles) on one of 49 arenas of 1 byte to 1 MB; its signature hashes arena, sizes, outcomes and return order; non-trivial if something was served',
             [R('c07', 'asan', 30000, 600000)], ['exactly_full', 'rewinds', 'returns_without_rewind', 'rewinds_when_empty', 'refusals', 'renewed', 'whole_arena']),
    'C08': C('online comparison of the recorded source calls with a model of the kept blocks', 'a case is a random history (10-300 requests at, inside and outside the range, returns, moves) on one of 102 free lists (17 ranges up to the full size range, six wrappings) with a refusing source; its signature hashes list, sizes and returns; non-trivial if something was served',
             [R('c08', 'asan', 30000, 600000)], ['reused', 'fresh', 'refused', 'out_of_range', 'released', 'moves']),
    'C09': C('online instance-lifecycle monitor over recorded creations, drops and calls, with heap fault injection', 'a case is a random history (10-1500 operations) on a cascading allocator (7 wrappings) whose instances hold 1-2000 bytes, may refuse at random, and may fail to be created; its signature hashes sizes, serving instances and returns; non-trivial if something was served',
             [R('c09', 'asan', 20000, 400000)], ['served_by_another_instance', 'dropped_when_empty', 'trial_instances_dropped', 'moves']),
    'C10': C('guard-byte mutation with an exact oracle for the streamed report', 'a case is a random history (4-150 allocations, writes inside and within 64 (128 when nested) bytes around blocks, undone writes, returns) on one of 34 corruption-detecting compositions on two kinds of stream; its signature hashes sizes and the damage of every return; non-trivial if something was served',
             [R('c10', 'asan', 30000, 600000)], ['damaged', 'damaged_at_64_before', 'damaged_at_64_after', 'damaged_both_sides', 'damage_undone', 'untouched', 'blocks_over_4GB']),
    'C11': C('balance ledger kept by the client compared with the streamed report', 'a case is a random history (allocations that may fail, returns also at another equal allocator, constructions that may throw, destructions, damage, moves, handles) on one of 28 leak-detecting compositions, leaving a random rest; its signature hashes sizes and the final balances; all are non-trivial',
             [R('c11', 'asan', 30000, 600000)], ['leaks', 'excess_returns', 'balanced', 'undestroyed', 'excess_destructions', 'throwing_constructors', 'failed_requests', 'moves', 'damages', 'leaks_over_4GB', 'many_objects']),
    'C12': C('state-lifetime monitor with an exact handle model; many threads under TSan and ASan with a delaying atomic', 'a case is a random history of up to 120 operations on 12 handles of one of 8 kinds (now and then up to 70000 copies), or 2-6 threads which copy, pass on and drop handles to the same states at once; its signature hashes the operations, or the order in which threads ended states; all are non-trivial',
             [R('c12', 'asan', 24000, 500000, env={'VF_MODE': 'seq'}), R('c12', 'asan', 3000, 60000, env={'VF_MODE': 'conc'}, weight=2), R('c12', 'tsan', 4000, 80000, env={'VF_MODE': 'conc'}, weight=2)],
             ['states_ended', 'self_assignments', 'self_move_assignments', 'moved_from_compared', 'moved_from_destroyed', 'assigned_from_moved_from', 'mass_copies', 'ended_by_different_threads']),
    'C13': C('mutual-exclusion monitor inside the wrapped allocator, block-content monitor, ThreadSanitizer (races, lock order)', 'a case is 2-6 threads with up to 150 random operations each on one of 14 lock-wrapped allocators (owned, referenced, counted, typed; with and without the monitor inside; some throwing); its signature hashes the order in which the threads finished their operations; all are non-trivial',
             [R('c13', 'asan', 5600, 150000, env={'VF_MODE': 'use'}, weight=2, timeout=100), R('c13', 'tsan', 5600, 150000, env={'VF_MODE': 'use'}, weight=2, timeout=100), R('c13', 'asan', 4, 40, env={'VF_MODE': 'objects'}, weight=2, timeout=100)],
             ['monitored_operations', 'switches_between_threads', 'thrown', 'refusals', 'outstanding_after_joining', 'containers_passed_on', 'meetings_arranged']),
    'C14': C('equality oracle over handles whose state is known, with block exchange between equal allocators under a ledger', 'a case is a random history (3-60 comparisons of all handles with each other, interleaved with allocations and returns through equal handles) on one of 34 families of allocators; its signature hashes the operations; all are non-trivial',
             [R('c14', 'asan', 34000, 700000), R('c14', 'gasan20', 8500, 200000)], ['same_state', 'separate_state', 'moved_from_compared', 'returned_through_equal', 'cross_type']),
    'C15': C('exact comparison of the byte counts, sources and addresses at recording sources, with conversions between object types', 'a case is a random history (10-120 requests of zero, small, maximal and unrepresentable counts, returns through handles of other object types, copies, moves, conversions and assignments) on handles of 8 object sizes over shared sources of several kinds; its signature hashes the operations; all are non-trivial',
             [R('c15', 'asan', 60000, 1200000)], ['requests', 'returns', 'conversions', 'unrepresentable_requests', 'maxima', 'arena_maxima', 'ownership_questions', 'assignments']),
    'C16': C('construction monitor: every constructor, destructor and call of a source is recorded and compared with the owner of the memory', 'a case is a random history (10-80 allocations, constructions in 10 forms, destructions, returns; single objects and elements of arrays) on one of 27 kinds of compositions whose sources define all, some or no construction; its signature hashes the operations; all are non-trivial',
             [R('c16', 'asan', 40000, 800000)], ['constructions_by_owner', 'constructions_without_owner', 'destructions_by_owner', 'throwing', 'constructions_through_allocators']),
    'C17': C('twin execution: allocators which are moved against twins which are not, over recording sources, under ASan+UBSan',
             'a case is a random history (10-250 allocations, returns, move constructions, move assignments, exchanges, destructions of moved-from and used allocators) on four slots of one of 32 compositions with limited and refusing sources; its signature hashes the operations and outcomes; all are non-trivial',
             [R('c17', 'asan', 64000, 1200000)], ['moved_with_blocks', 'moved_with_reserves', 'move_constructions', 'move_assignments', 'assigned_to_moved_from', 'moved_from_destroyed', 'reserves_returned', 'exchanges', 'source_calls_compared']),
    'C18': C('maximum-size oracle: boundary requests on fresh and used instances', RULE_GEN,
             [gen('max', 'asan', 60000, 1000000)], ['exact_max_requests', 'above_max_requests', 'max_offered', 'max_not_offered', 'offers']),
    'C19': C('twin execution: standard containers on the allocators against the same containers on the default allocator, under ASan+UBSan',
             'a case is a random history (inserts, erasures, splices, merges, swaps, copies, moves, node handles) on a pair of standard containers over one of several compositions and on their twins; its signature hashes the operations and the results; all are non-trivial',
             [R('c19', 'asan', 48000, 900000)], ['comparisons', 'audits', 'blocks_returned', 'swap', 'splice of a list', 'merge', 'extract']),
    'C20': C('twin execution of trivial_vector against std::vector under ASan+UBSan',
             'a case is a random history on a pool of vectors (element types of 1 to 64 bytes, 8 kinds of allocators) with insertions of the own elements, removals, growth to and beyond the capacity; its signature hashes the operations; all are non-trivial',
             [R('c20', 'asan', 40000, 900000, env={'VF_MODE': 'values'}), R('c20', 'gasan20', 8000, 200000, env={'VF_MODE': 'values'})],
             ['elements_compared', 'growths', 'insertions', 'removals', 'pops', 'ranges_added', 'own_elements_added', 'own_elements_added_growing', 'resizes', 'reservations']),
    'C21': C('twin execution of trivial_array against std::vector under ASan+UBSan',
             'a case is a random history on a pool of arrays (constructions from every kind of range, assignments, resizes, writes, copies, moves); its signature hashes the operations; all are non-trivial',
             [R('c21', 'asan', 80000, 1500000, env={'VF_MODE': 'values'}), R('c21', 'gasan20', 16000, 300000, env={'VF_MODE': 'values'})],
             ['assigned_ranges', 'resizes', 'writes']),
    'C22': C('twin execution of trivial_buffer against an array under ASan+UBSan',
             'a case is a random history on a pool of buffers of one of several sizes and element types (constructions, wrapped accesses, writes, copies, moves); its signature hashes the operations; all are non-trivial',
             [R('c22', 'asan', 120000, 2000000), R('c22', 'gasan20', 24000, 400000)],
             ['wrapped_accesses', 'writes', 'copies', 'moves', 'assigned_ranges', 'made_from_list', 'made_from_range', 'made_from_value']),
    'C23': C('twin execution of binary_heap against a sorted multiset of the contents, heap order read after every operation, under ASan+UBSan',
             'a case is a random history (insertions, copied own elements, pops, removals anywhere, searches, copies, moves, clears) on a pool of heaps over several element types, comparators and allocators; its signature hashes the operations; all are non-trivial',
             [R('c23', 'asan', 48000, 900000, env={'VF_MODE': 'values'}), R('c23', 'gasan20', 8000, 200000, env={'VF_MODE': 'values'})],
             ['roots_checked', 'removals', 'removals_of_the_last', 'histories_with_many_elements', 'found', 'not_found', 'own_elements_added_growing']),
    'C24': C('element lifetime monitor (every object registered by address: constructed once, destroyed once, used only while alive)',
             'a case is a random history on a pool of heaps of elements which register their lifetimes; its signature hashes the operations; all are non-trivial',
             [R('c23', 'asan', 48000, 900000, env={'VF_MODE': 'life'})], ['lifetime_checks', 'removals', 'removals_of_the_last']),
    'C25': C('conservation ledger at recording allocators: exact returns, no block left, storage of the containers inside live blocks',
             'a case is a random history on a pool of vectors, arrays or heaps on recording allocators; its signature hashes the operations; all are non-trivial',
             [R('c20', 'asan', 40000, 700000, env={'VF_MODE': 'ledger'}), R('c21', 'asan', 40000, 700000, env={'VF_MODE': 'ledger'}), R('c23', 'asan', 24000, 500000, env={'VF_MODE': 'ledger'})],
             ['ledger_checks', 'storage_checks', 'construction_checks', 'moves', 'moves_to_another_allocator', 'self_assignments']),
    'C26': C('twin execution: deep copies, moves and self-assignments on pools of containers, every other container re-read after each operation',
             'a case is a random history in which copies, moves, assignments between containers of the same and of different allocators prevail; its signature hashes the operations; all are non-trivial',
             [R('c20', 'asan', 24000, 500000, env={'VF_MODE': 'copies'}), R('c21', 'asan', 40000, 700000, env={'VF_MODE': 'copies'}), R('c23', 'asan', 24000, 500000, env={'VF_MODE': 'copies'})],
             ['copies', 'moves', 'copies_to_another_allocator', 'moves_to_another_allocator', 'assignments', 'move_assignments', 'self_assignments', 'self_move_assignments']),
    'C27': C('exact comparison with the packed values',
             'a case packs and unpacks random pointers and integers of every width of alignment, with integers beyond the room; its signature hashes them; all are non-trivial',
             [R('c27', 'asan', 120000, 3000000), R('c27', 'gasan20', 40000, 1000000)], ['comparisons', 'integers_reduced', 'only_integer', 'both_zero']),
    'C28': C('digests of the same client histories compared across compilers, language versions, optimisation levels, heap facilities and debug assertions; every header compiled on its own',
             'a case is a client history of one of the other programs; its results (served or refused, offsets in arenas, contents, reports) are hashed and must be equal in all build configurations; a firing assertion ends the program; further cases are the headers, each compiled alone by both compilers; signatures as in the other programs',
             [R('c28', b, 64, 64, parts=1) for b in ('d-g17-O0', 'd-c20-O0', 'd-c17-O2', 'd-g20-O2')] +
             same('gen', 4000, 200000, CONFIGS + HEAPS, 'digest') + same('c06', 1500, 60000, soon=FEW2) + same('c07', 1500, 60000) + same('c08', 1500, 60000) + same('c09', 1500, 60000, CONFIGS + HEAPS, 'tidy') + same('c10', 1500, 60000)
             + same('c14', 1500, 60000, soon=FEW) + same('c15', 1500, 60000, soon=FEW2) + same('c16', 1500, 60000, soon=FEW) + same('c17', 1500, 60000, CONFIGS + HEAPS, soon=FEW2) + same('c30', 1500, 60000, CONFIGS + HEAPS, soon=FEW)
             + same('c20', 3000, 100000, mode='values') + same('c21', 3000, 100000, mode='values') + same('c22', 4000, 100000) + same('c23', 3000, 100000, mode='values') + same('c27', 4000, 100000)
             + same('c12', 1500, 60000, mode='seq', soon=FEW2) + same('c31', 1500, 60000, CONFIGS + HEAPS, soon=FEW) + same('c19', 1200, 30000, ['d-g17-assert', 'd-c20-O0']) + same('c32', 400, 12000, ['d-g17-O3', 'd-c20-assert']) + same('c33', 3000, 100000, ['d-g17-O3', 'd-c20-assert', 'd-g20-O2'], soon=['d-g20-O2', 'd-c20-assert']) + same('c34', 1000, 40000) + same('c35', 1500, 60000, soon=FEW2) + same('c36', 1500, 60000, soon=FEW) + same('c37', 1500, 60000, soon=FEW),
             ['digest_comparisons', 'configurations_compared', 'headers_on_their_own']),
    'C29': C('AddressSanitizer and UndefinedBehaviorSanitizer (clang and gcc) over all workloads', RULE_GEN,
             [dict(r, only=MEMORY) for r in everything()], ['allocations', 'valgrind_runs']),
    'C30': C('twin execution: operations through random handles of a state against a plain allocator per state, over recording sources, under ASan+UBSan',
             'a case is a random history (10-250 allocations and returns through random handles; copies, moves, conversions between object types, reassignments, exchanges, installations behind the global allocator) on eight handles of one of 22 families; its signature hashes the operations and outcomes; all are non-trivial',
             [R('c30', 'asan', 22000, 800000)], ['returned_through_another_type', 'conversions', 'copies', 'moves', 'reassignments', 'reassigned_to_the_same', 'states_ended', 'installations', 'installed_with_blocks', 'direct', 'exchanges']),
    'C31': C('fault injection at throwing sources with twin comparison and footprint ledger, under ASan+UBSan',
             'a case is a random history (10-200 requests and returns, objects made and destroyed in blocks, destructions and creations) on one of 36 compositions over sources which throw at a chosen call (of allocation, construction, destruction or creation) now and then, one exception or several in a row; its signature hashes the composition, sizes, outcomes and exceptions; all are non-trivial',
             [R('c31', 'asan', 32000, 640000), R('c31', 'gasan20', 6400, 128000)],
             ['exceptions_at_first_call', 'exceptions_at_later_calls', 'creations_ended_by_exceptions', 'constructions_ended_by_exceptions', 'destructions_ended_by_exceptions', 'constructions_by_the_allocator', 'source_calls_compared', 'ownership_questions']),
    'C32': C('comparison of the results of independent instances alone, interleaved and in threads of their own; ThreadSanitizer',
             'a case is two to six random clients (a history of 5-120 operations each on an allocator of its own out of ~75 compositions, or on one of 10 containers), each run alone, interleaved with the others in one thread, and in a thread of its own; or two to four threads which look at the same objects; its signature hashes the results; all are non-trivial',
             [R('c32', 'asan', 8000, 240000, weight=2), R('c32', 'tsan', 4800, 160000, weight=2)],
             ['interleaved', 'in_threads', 'shared_readers', 'operations_in_threads']),
    'C33': C('allocators which know where they are and that they may not be copied, inside containers which are compared with a twin; conservation ledger, under ASan+UBSan',
             'a case is a random history (5-100 operations, growth included, within the room of the allocator) on one container (trivial_vector, trivial_array, binary_heap; 5 element types) which owns one of 9 allocators '
             'that cannot be copied, or had one of 6 passed in by value; its signature hashes the contents and the requests; all are non-trivial',
             [R('c33', 'asan', 80000, 1600000), R('c33', 'gasan20', 16000, 320000)],
             ['own_allocator', 'passed_in', 'grown', 'elements_compared', 'made_with_capacity', 'made_with_elements']),
    'C34': C('metering of requests, returns, comparisons, moves and copies around every operation, against bounds',
             'a case is a random history (5-150 operations) or a growth one by one (to 150 000 elements, all ways to add elements, all orders of keys) of one container on a metering allocator, with metering comparators '
             'and elements; its signature hashes sizes and capacities; all are non-trivial',
             [R('c34', 'asan', 40000, 800000), R('c34', 'gasan20', 8000, 160000)],
             ['within_capacity', 'growths', 'grown_one_by_one', 'grown_by_one_operation', 'popped_one_by_one', 'passed_on', 'efforts_measured']),
    'C35': C('twin execution: allocators under their shorthand names, through handles and get_allocator(), against the composition spelled out; ThreadSanitizer for the names which promise threads',
             'a case is a random history (10-200 requests, returns, questions, copied and dropped handles) on one of 24 named compositions for 3 object sizes, or threads which copy, use and drop handles; '
             'its signature hashes sizes, outcomes and source calls; all are non-trivial',
             [R('c35', 'asan', 40000, 800000), R('c35', 'gasan20', 8000, 160000), R('c35', 'tsan', 1200, 40000, env={'VF_MODE': 'threads'}, weight=2)],
             ['requests', 'requests_through_get_allocator', 'returns_through_get_allocator', 'source_calls_compared', 'handles_copied', 'handles_dropped', 'queries', 'heaps', 'shared_by_threads']),
    'C36': C('sources which record what they are constructed with; twin execution against a composition which was constructed without arguments',
             'a case is one construction (7 forms of arguments, given directly or in tuples) of one of 31 compositions over memory full of something else, and a random history (5-80 operations) on it; '
             'its signature hashes requests, outcomes and source calls; all are non-trivial',
             [R('c36', 'asan', 60000, 1200000), R('c36', 'gasan20', 12000, 240000)],
             ['arguments_followed', 'tuples', 'arenas_passed', 'requests', 'refusals', 'source_calls_compared']),
    'C37': C('fault injection into the copies, moves and requests of containers; lifetime monitor of elements, ledger of blocks and comparison with a model after each',
             'a case is a random history (5-60 operations, most of which explode at a chosen copy, move or request) on 3 heaps, vectors or arrays on one of 3 allocators; its signature hashes the operations, '
             'their outcomes and the sizes; all are non-trivial',
             [R('c37', 'asan', 40000, 800000), R('c37', 'gasan20', 8000, 160000)],
             ['exploded_at a copy', 'exploded_at a move', 'exploded_at a request', 'exploded_at a copy of the comparator', 'exploded_at an assignment of the comparator', 'failed_moves', 'unchanged', 'used_after_failure', 'replaced_after_failure', 'accounts']),
    'C38': C('metering of every step (control-flow edge, 16 bytes copied) by compiler instrumentation; the most expensive operation among thousands is compared with that among a few',
             'a case is one of 24 allocators with 40 histories of 24 blocks and one of 1000-6000 (and histories with blocks of up to 60000 bytes), or one of 6 containers with 32 and with 2000-9000 elements; '
             'its signature hashes the kind, sizes and order; all are non-trivial',
             [R('c38', 'meter', 6000, 150000), R('c38', 'gmeter20', 3000, 75000)],
             ['comparisons', 'operations_metered', 'linear_operations', 'histories_with_large_blocks', 'blocks', 'elements']),
    'C39': C('closure: every composition which the documentation admits is instantiated and driven in full; books at the sources, contents, what it offers',
             'a case is a random history (raw: requests, returns, constructions, queries; then typed through std::allocator_traits with copies of handles and for other types) on one of 1022 compositions of sources with '
             'all 8 sets of optional operations; its signature hashes the composition, requests and outcomes; all are non-trivial',
             [R('c39', 'asan', 60000, 1500000), R('c39', 'gasan20', 20000, 400000)],
             ['compositions', 'allocations', 'arrays', 'constructed_by_sources', 'constructions', 'queries', 'refusals', 'through_other_type']),
    'C40': C('accounting of all requests at the C heap and operator new, operation by operation, over sources in static memory',
             'a case is a random history on one of 35 compositions or 7 container kinds; its signature hashes the sizes and outcomes; all are non-trivial',
             [R('c40', 'asan', 60000, 1500000), R('c40', 'gasan20', 30000, 600000)],
             ['operations_watched', 'operations_without_heap', 'served_by_the_heap', 'instances', 'questions', 'constructions', 'copies', 'moves', 'container_operations', 'refusals']),
    'C41': C('breakpoint monitor: broken preconditions must be trapped, kept ones must not, in builds with debug assertions under ASan+UBSan',
             'a case is an object of one of 34 kinds (containers, packed pointers, allocators) in a random state, used within its preconditions and then once outside one of them; its signature hashes state and operation; all are non-trivial',
             [R('c41', 'debug', 60000, 1500000), R('c41', 'gdebug20', 30000, 600000)],
             ['correct_uses', 'stopped', 'stopped:an index', 'stopped:an index, const', 'stopped:at()', 'stopped:at(), const', 'stopped:emplace() behind the end', 'stopped:erase() at the end', 'stopped:erase() of a reversed range', 'stopped:pop_back() of an empty vector',
              'stopped:peek() of an empty heap', 'stopped:pop() of an empty heap', 'stopped:nullptr returned', 'stopped:an arena in use moved', 'stopped:a list longer than the buffer', 'stopped:a misaligned pointer set', 'stopped:a cascade with several instances dropped']),
}
