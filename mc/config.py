"""Which programs decide which property."""


def P(src, **kw):
    kw['src'] = src
    return kw


SHIM = 'the platform atomic operations (baremetal concurrency library, not available here) are replaced by a model that is sequentially consistent per operation'
CONSTEXPR = ['-fconstexpr-ops-limit=4000000000', '-fconstexpr-loop-limit=100000000']


def PART(n, k):
    return ['-DMC_NPARTS=%d' % n, '-DMC_PART=%d' % k]


CHECKS = {
    'C01': dict(programs=[P('c01_bitset_history.cpp', parts=8)]),
    'C02': dict(programs=[P('c02_bitset_algebra.cpp', parts=8)]),
    'C03': dict(programs=[P('c03_bitset_iteration.cpp', parts=8)]),
    'C04': dict(programs=[P('c04_bitset_convert.cpp', parts=8)]),
    'C05': dict(programs=[P('c05_type_bitset.cpp', parts=8, opt='-O0')]),
    'C09': dict(programs=[P('c09_cx_vector.cpp', parts=4), P('c38_constant_evaluation.cpp', opt='-O1', san=False, flags=CONSTEXPR + PART(6, 1))]),
    'C10': dict(programs=[P('c10_cx_queue.cpp', parts=6), P('c40_element_ownership.cpp', opt='-O1', flags=PART(5, 1))]),
    'C11': dict(programs=[P('c11_cx_map.cpp', parts=4)]),
    'C12': dict(programs=[P('c12_cx_set.cpp', parts=4)]),
    'C13': dict(programs=[P('c13_cx_multimap.cpp', parts=3)]),
    'C14': dict(programs=[P('c14_intrusive_list.cpp', parts=3)]),
    'C15': dict(programs=[P('c15_intrusive_forward_list.cpp', parts=3)]),
    'C16': dict(programs=[P('c16_list_policy.cpp', parts=4)]),
    'C17': dict(programs=[P('c17_latched_cached.cpp', parts=4)]),
    'C18': dict(programs=[P('c18_optional_state.cpp', parts=8)]),
    'C19': dict(programs=[P('c19_optional_monadic.cpp', parts=4)]),
    'C20': dict(programs=[P('c20_rollover.cpp', parts=3)]),
    'C21': dict(programs=[P('c21_saturate_cast.cpp', parts=4)]),
    'C22': dict(programs=[P('c22_bit_pack_mask.cpp', parts=6, opt='-O0'),
                          P('c22_bit_pack_mask.cpp', parts=6, opt='-O0', flags=['-DMC_FALLBACK'])]),
    'C24': dict(programs=[P('c24_byterator.cpp', parts=3)]),
    'C25': dict(programs=[P('c25_span.cpp', parts=4)]),
    'C26': dict(programs=[P('c26_algorithms.cpp', parts=5)]),
    'C27': dict(programs=[P('c27_tuple.cpp', parts=8, opt='-O0'),
                          P('c27_tuple.cpp', parts=8, opt='-O0', cc='clang++')]),
    'C28': dict(programs=[P('c28_tuple_algorithms.cpp', parts=16, opt='-O0', san=False),
                          P('c28_tuple_algorithms.cpp', parts=8, opt='-O0', flags=['-DMC_COMBINATIONS'])]),
    'C29': dict(programs=[P('c29_tuple_ownership.cpp', parts=8, opt='-O0')]),
    'C30': dict(programs=[P('c30_call_by_need.cpp', parts=16, opt='-O0', san=False)]),
    'C31': dict(programs=[P('c31_ct_string.cpp', parts=8, opt='-O0')]),
    'C32': dict(programs=[P('c32_ct_format.cpp', parts=16, opt='-O0', san=False, flags=['-DSTDX_FREESTANDING'])]),
    'C33': dict(programs=[P('c33_functional.cpp', parts=16, opt='-O0', san=False), P('c33_functional.cpp', flags=['-DMC_SMALL'])]),
    'C34': dict(programs=[P('c34_for_each_n_args.cpp', parts=3, opt='-O0')]),
    'C41': dict(programs=[P('c41_function_traits.cpp', parts=8, opt='-O0', san=False)]),
    'C35': dict(programs=[P('c35_type_map_env.cpp', parts=8, opt='-O0', san=False)]),
    'C36': dict(programs=[P('c36_sized_literals.cpp', parts=6, opt='-O0', san=False)]),
    'C37': dict(programs=[P('c37_counting_iterator.cpp', opt='-O1')]),
    'C40': dict(programs=[P('c40_element_ownership.cpp', parts=5, opt='-O1')]),
    'C06': dict(programs=[P('c06_atomic.cpp', opt='-O1', inc=['harness/shim']),
                          P('c06_atomic.cpp', opt='-O1', inc=['harness/shim'], flags=['-DATOMIC_CFG="atomic_cfg.hpp"']),
                          P('c06_atomic_sched.cpp', opt='-O2', inc=['harness/shim'], san=False),
                          P('c06_atomic_sched.cpp', opt='-O2', inc=['harness/shim'], san=False, flags=['-DATOMIC_CFG="atomic_cfg.hpp"'])],
                assumptions=[SHIM]),
    'C07': dict(programs=[P('c07_atomic_bitset.cpp', parts=4, opt='-O1', inc=['harness/shim']),
                          P('c07_atomic_bitset.cpp', parts=4, opt='-O1', inc=['harness/shim'], flags=['-DATOMIC_CFG="atomic_cfg.hpp"']),
                          P('c07_atomic_bitset_sched.cpp', opt='-O2', inc=['harness/shim'], san=False),
                          P('c07_atomic_bitset_sched.cpp', opt='-O2', inc=['harness/shim'], san=False, flags=['-DATOMIC_CFG="atomic_cfg.hpp"'])],
                assumptions=[SHIM]),
    'C08': dict(programs=[P('c08_memory_order.cpp', opt='-O1', inc=['harness/shim'], san=False),
                          P('c08_memory_order.cpp', opt='-O1', inc=['harness/shim'], san=False, flags=['-DATOMIC_CFG="atomic_cfg.hpp"'])],
                assumptions=[SHIM]),
    'C38': dict(programs=[P('c38_constant_evaluation.cpp', parts=6, opt='-O1', san=False, flags=CONSTEXPR)]),
    'C39': dict(programs=[], custom='c39', assumptions=['rejection is judged by the two compilers of the sandbox; g++-13 and clang++-18 in C++23 mode']),
    'C42': dict(programs=[P('c42_packs.cpp', parts=4, opt='-O0', san=False),
                          P('c42_packs.cpp', parts=4, opt='-O0', san=False, cc='clang++', flags=['-fbracket-depth=1024'])]),
    'C43': dict(programs=[P('c43_names.cpp', parts=5, opt='-O0', san=False),
                          P('c43_names.cpp', parts=5, opt='-O0', san=False, cc='clang++', flags=['-fbracket-depth=1024'])]),
    'C44': dict(programs=[P('c44_compile_time_values.cpp', parts=6, opt='-O0', san=False),
                          P('c44_compile_time_values.cpp', parts=5, opt='-O0', san=False, cc='clang++', flags=['-fbracket-depth=1024'])]),
    'C46': dict(programs=[P('c46_panic.cpp'), P('c46_panic.cpp', cc='clang++')]),
    'C47': dict(programs=[P('c47_exceptions.cpp', parts=3, opt='-O1')]),
    'C48': dict(programs=[P('c48_layout.cpp', parts=4, san=False, flags=['-DMC_SMALL'], cc='clang++'),
                          P('c48_layout.cpp', parts=4, san=False)]),
    'C45': dict(programs=[P('c45_traits.cpp', parts=5, opt='-O0', san=False),
                          P('c45_traits.cpp', parts=5, opt='-O0', san=False, cc='clang++', flags=['-fbracket-depth=1024']),
                          P('c45_traits.cpp', parts=5, opt='-O0', san=False, flags=['-DMC_FALLBACK'])]),
    'C23': dict(programs=[P('c23_bit_functions.cpp'),
                          P('c23_bit_functions.cpp', std='c++20'),
                          P('c23_bit_functions.cpp', flags=['-DMC_FALLBACK']),
                          P('c23_bit_functions.cpp', flags=['-DMC_FALLBACK'], std='c++20', cc='clang++'),
                          P('c23_bit_functions.cpp', std='c++20', cc='clang++')]),
}

DEFAULT_NOTE = ('Complete within the bounds listed in DESIGN.md: every execution of the alphabet is run on the real '
                'headers under ASan/UBSan and compared with a reference model; nothing is sampled. Trusts the '
                'reference model, the compiler and the sanitizers.')
NOT_APPLICABLE = {}
NOTES = {
    'C01': ('state closure over operation histories', ''),
    'C02': ('state closure plus operand enumeration', ''),
    'C03': ('state closure with iteration oracles', ''),
    'C04': ('input enumeration', ''),
    'C05': ('state closure over many type lists', ''),
    'C09': ('state closure over operation histories', ''),
    'C10': ('state closure over operation histories', ''),
    'C11': ('state closure over operation histories', ''),
    'C12': ('state closure over operation histories', ''),
    'C13': ('state closure over operation histories', ''),
    'C14': ('state closure over histories of a node pool and several lists', ''),
    'C15': ('state closure over histories of a node pool and several lists', ''),
    'C16': ('state closure, every insertion attempted in every state', ''),
    'C17': ('enumeration of all operation sequences', ''),
    'C18': ('enumeration of all operation sequences', ''),
    'C19': ('enumeration of engagement and value categories', ''),
    'C20': ('input enumeration', ''),
    'C21': ('input enumeration', ''),
    'C22': ('input and template-argument enumeration', ''),
    'C23': ('input enumeration in every library configuration', ''),
    'C24': ('enumeration of positions, distances and transfer forms', ''),
    'C25': ('enumeration of constructions and subviews', ''),
    'C26': ('enumeration of lengths, counts and iterator categories', ''),
    'C28': ('program enumeration: every type pattern, every combination of tuple lengths, every predicate outcome', ''),
    'C29': ('program enumeration with instrumented elements over value categories', ''),
    'C30': ('program enumeration: every list of functions and arguments over the alphabets', ''),
    'C31': ('program enumeration for the compile-time forms, input enumeration for the run-time operators', ''),
    'C32': ('program enumeration: every format shape with every kind of argument in every position', ''),
    'C33': ('program enumeration over arities and value categories, with every short call history; choice enumeration for with_result_of', ''),
    'C34': ('program enumeration over batch sizes, argument counts, categories and kinds of callable', ''),
    'C41': ('program enumeration over forms of callables and parameter lists', ''),
    'C35': ('program enumeration: every small map and every environment built in up to 3 steps', ''),
    'C36': ('exhaustive enumeration of size pairs, alignments and digit strings', ''),
    'C37': ('exhaustive enumeration of positions, jumps and histories; program enumeration of capacities', ''),
    'C40': ('exhaustive operation histories on container pairs with instrumented elements', ''),
    'C06': ('stateless exploration of all thread interleavings with a linearizability oracle; exhaustive operand enumeration', ''),
    'C07': ('stateless exploration of all thread interleavings with a linearizability oracle; exhaustive enumeration of values, bits and ranges', ''),
    'C08': ('stateless exploration of message passing programs with a vector clock race detector; enumeration of every operation and order', ''),
    'C38': ('exhaustive operation histories, each executed by the compiler and by the processor', ''),
    'C39': ('exhaustive enumeration of small programs, each decided by two compilers', ''),
    'C42': ('program enumeration by template instantiation', ''),
    'C43': ('enumeration of types and enumerators through the compiler', ''),
    'C44': ('program enumeration over ways of writing an argument', ''),
    'C46': ('program enumeration over argument lists', ''),
    'C47': ('exhaustive fault injection at every user operation of every bounded history', ''),
    'C48': ('program enumeration over template arguments', ''),
    'C45': ('program enumeration over an alphabet of types', ''),
    'C27': ('program enumeration over element kinds, exhaustive enumeration of element values', ''),
}
