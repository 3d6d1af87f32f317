"""What each check runs: build configurations, workloads, oracle groups."""
from collections import namedtuple

O = {n: 1 << i for i, n in enumerate(['MEM', 'ORD', 'EACH', 'HEAP', 'USE', 'SIZE', 'WORK', 'ECON', 'OBJ', 'CB', 'BAL', 'ADDR', 'COST', 'STACK', 'FROZEN'])}
NONE = 0x40000000  # only crashes, hangs, sanitizer reports


def mask(names):
    m = 0
    for n in names.split():
        m |= O[n]
    return m or NONE


GCC, GXX, CLANG, CLANGXX = ['gcc'], ['g++', '-x', 'c++', '-fpermissive'], ['clang'], ['clang++', '-x', 'c++']
UB = ['-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


def b(cc=GCC, sut=('-O2',), hcc=GCC, har=('-O2',), link=None, **kw):
    d = dict(cc=list(cc), sut=list(sut), hcc=list(hcc), har=list(har), link=list(link or hcc))
    d.update(kw)
    return d


BUILDS = {
    # the library as users build it
    'fast': b(),
    'fast32': b(all=['-m32']),
    # executed basic blocks are counted by instrumentation: a clock that does not depend on the machine
    'steps': b(sut=['-O1', '-DMON_COUNT_MEM', '-fsanitize-coverage=trace-pc']),
    'steps32': b(sut=['-O1', '-DMON_COUNT_MEM', '-fsanitize-coverage=trace-pc'], all=['-m32']),
    # static data of the library in sections of its own
    'frozen': b(sut=['-O2', '-DMON_STATICS']),
    'frozen-O0': b(sut=['-O0', '-DMON_STATICS']),
    'frozen-port': b(cc=CLANG, sut=['-O2', '-DMON_STATICS', '-DSUT_PORTABLE']),
    'frozen32': b(sut=['-O2', '-DMON_STATICS'], all=['-m32']),
    # sanitizers
    'asan': b(cc=CLANG, hcc=CLANG, sut=['-O1'], har=['-O1'], all=['-fsanitize=address,undefined'] + UB),
    'gasan': b(sut=['-O1'], har=['-O1'], all=['-fsanitize=address,undefined'] + UB),
    # without AddressSanitizer the heap can be made of address space never touched: elements and blocks of gigabytes
    'usan': b(sut=['-O1'], har=['-O1'], all=['-fsanitize=undefined'] + UB),
    'cusan': b(cc=CLANG, hcc=CLANG, sut=['-O1'], har=['-O1'], all=['-fsanitize=undefined'] + UB),
    'asan32': b(cc=CLANG, hcc=CLANG, sut=['-O1'], har=['-O1'], all=['-m32', '-fsanitize=address,undefined'] + UB),
    'gasan32': b(sut=['-O1'], har=['-O1'], all=['-m32', '-fsanitize=address,undefined'] + UB),
    'asanport': b(cc=CLANG, hcc=CLANG, sut=['-O1', '-DSUT_PORTABLE'], har=['-O1'], all=['-fsanitize=address,undefined'] + UB),
    'msan': b(cc=CLANG, hcc=CLANG, sut=['-O0'], har=['-O1'], all=['-fsanitize=memory', '-fno-omit-frame-pointer']),
    'tsan': b(cc=CLANG, hcc=CLANG, sut=['-O0'], har=['-O1'], all=['-fsanitize=thread', '-DMON_RAWHEAP']),
    'tsanport': b(cc=CLANG, hcc=CLANG, sut=['-O0', '-DSUT_PORTABLE'], har=['-O1'], all=['-fsanitize=thread', '-DMON_RAWHEAP']),
    'gtsan': b(sut=['-O2'], har=['-O1'], all=['-fsanitize=thread', '-DMON_RAWHEAP']),
    # other configurations
    'portable': b(sut=['-O2', '-DSUT_PORTABLE']),
    'portable32': b(sut=['-O2', '-DSUT_PORTABLE'], all=['-m32']),
    # the code for the Microsoft compiler, its intrinsics emulated as documented
    'msvc': b(sut=['-O2', '-DSUT_MSVC']),
    'msvc32': b(sut=['-O2', '-DSUT_MSVC'], all=['-m32']),
    'd-gcc-Os-89': b(sut=['-Os', '-std=gnu89', '-funsigned-char']),
    'd-gcc-O0': b(sut=['-O0', '-fwrapv']),
    'd-gcc-O3-ndebug': b(sut=['-O3', '-DNDEBUG', '-fstrict-aliasing']),
    'd-gcc-O3-native': b(sut=['-O3', '-march=native', '-funroll-loops']),
    'd-gxx-O2': b(cc=GXX, sut=['-O2'], link=['g++']),
    'd-clang-O0': b(cc=CLANG, sut=['-O0']),
    'd-clang-O3-ndebug': b(cc=CLANG, sut=['-O3', '-DNDEBUG', '-fstrict-aliasing']),
    'd-clangxx-O2': b(cc=CLANGXX, sut=['-O2'], link=['g++']),
    'd-portable-O3': b(cc=CLANG, sut=['-O3', '-DSUT_PORTABLE']),
    'd-gcc-c99': b(sut=['-O2', '-std=c99', '-D_GNU_SOURCE']),
    'd-clang-c17': b(cc=CLANG, sut=['-O2', '-std=c17', '-D_GNU_SOURCE', '-ffp-contract=off', '-fno-plt']),
    'd-gxx-98': b(cc=GXX, sut=['-O3', '-std=c++98', '-fno-inline'], link=['g++']),
    'd-gcc-lto': b(sut=['-O3', '-flto', '-fno-fat-lto-objects', '-fsemantic-interposition'], har=['-O1', '-flto'], link=['gcc', '-O3', '-flto']),
    'd-m32': b(sut=['-O2'], all=['-m32']),
    'd-m32-portable': b(sut=['-O2', '-DSUT_PORTABLE'], all=['-m32']),
}
# dialects and compilers the library supports but /repo's own build does not use: where one stops compiling nothing can be observed
for _k in ('frozen-port', 'portable', 'portable32', 'asanport', 'tsanport', 'msvc', 'msvc32', 'd-gcc-Os-89', 'd-gxx-O2', 'd-clangxx-O2', 'd-portable-O3', 'd-m32-portable', 'd-gcc-c99', 'd-clang-c17', 'd-gxx-98', 'd-gcc-lto'):
    BUILDS[_k]['optional'] = True
# documented trie parameters (C26)
PARAMS = {
    'k-w32-b2-i2': dict(TOMMY_TRIE_BIT=32, TOMMY_TRIE_TREE_MAX=2, TOMMY_TRIE_INPLACE_BIT=32, TOMMY_TRIE_INPLACE_TREE_MAX=2),
    'k-w16-b4-i2': dict(TOMMY_TRIE_BIT=16, TOMMY_TRIE_TREE_MAX=4, TOMMY_TRIE_INPLACE_BIT=16, TOMMY_TRIE_INPLACE_TREE_MAX=2),
    'k-w24-b16-i8': dict(TOMMY_TRIE_BIT=24, TOMMY_TRIE_TREE_MAX=16, TOMMY_TRIE_INPLACE_BIT=24, TOMMY_TRIE_INPLACE_TREE_MAX=8),
    'k-w32-b32-i16': dict(TOMMY_TRIE_BIT=32, TOMMY_TRIE_TREE_MAX=32, TOMMY_TRIE_INPLACE_BIT=32, TOMMY_TRIE_INPLACE_TREE_MAX=16),
    'k-w64-b8-i4': dict(TOMMY_TRIE_BIT=64, TOMMY_TRIE_TREE_MAX=8, TOMMY_TRIE_INPLACE_BIT=64, TOMMY_TRIE_INPLACE_TREE_MAX=4),
    'k-w64-b16-i2': dict(TOMMY_TRIE_BIT=64, TOMMY_TRIE_TREE_MAX=16, TOMMY_TRIE_INPLACE_BIT=64, TOMMY_TRIE_INPLACE_TREE_MAX=2),
    'k-w48-b4-i8': dict(TOMMY_TRIE_BIT=48, TOMMY_TRIE_TREE_MAX=4, TOMMY_TRIE_INPLACE_BIT=48, TOMMY_TRIE_INPLACE_TREE_MAX=8),
    'k-w31-b8-i8': dict(TOMMY_TRIE_BIT=31, TOMMY_TRIE_TREE_MAX=8, TOMMY_TRIE_INPLACE_BIT=31, TOMMY_TRIE_INPLACE_TREE_MAX=8),
    'k-w33-b64-i4': dict(TOMMY_TRIE_BIT=33, TOMMY_TRIE_TREE_MAX=64, TOMMY_TRIE_INPLACE_BIT=33, TOMMY_TRIE_INPLACE_TREE_MAX=4),
}
for _k, _v in PARAMS.items():
    BUILDS[_k] = b(sut=['-O1', '-DMON_COUNT_MEM', '-fsanitize-coverage=trace-pc'], params=_v)
    BUILDS['u' + _k] = b(sut=['-O1'], har=['-O1'], all=['-fsanitize=address,undefined'] + UB, params=_v)

Job = namedtuple('Job', 'name harness variant build cases mask shards scale timeout prio env group')


def J(harness, variant, build, quick, groups, thorough=None, scale=1.0, tscale=None, shards=None, timeout=400, prio=0, env=None, group=''):
    return dict(harness=harness, variant=variant, build=build, quick=quick, thorough=quick * 20 if thorough is None else thorough, groups=groups,
                scale=scale, tscale=tscale or scale, shards=shards, timeout=timeout, prio=prio, env=env, group=group)


HASH = 'Cases are random histories over one to three containers: growth, shrinkage, mixed operations, oscillation around the resize thresholds, steady queues, bursts of equal keys, emptying and refilling, with twelve key distributions; a few have up to a million objects.'
PLAN = {}


def P(pid, rule, jobs, **kw):
    PLAN[pid] = dict(rule=rule, jobs=jobs, **kw)


TRUST = ['the reference models and oracles in harness/*.c are right', 'gcc, clang and their sanitizer runtimes are right', 'behaviours not reached by the generated histories are not decided']

P('C01', HASH, [
    J('h_map', 'hash', 'steps', 640, 'MEM', prio=2),
    J('h_giant', 'chain +hashtable +hashdyn +hashlin', 'fast', 6, 'MEM', thorough=24),
    J('h_giant', '+hashtable +hashdyn +hashlin', 'fast', 3, 'MEM', thorough=12, prio=3),
    J('h_huge', '', 'fast', 24, 'MEM', thorough=200),
    J('h_map', 'hash', 'fast', 1600, 'MEM', prio=1),
    J('h_map', 'hash', 'fast32', 320, 'MEM'),
    J('h_map', 'dyn spread huge', 'fast', 0, 'MEM', thorough=12),
    J('h_map', 'hash small', 'gasan', 320, 'MEM'),
    J('h_giant', '+hashtable +hashdyn +hashlin', 'fast32', 12, 'MEM', thorough=48, scale=0.05, tscale=0.2),
    J('h_many', '+hashtable +hashdyn +hashlin ', 'fast', 3, 'MEM', thorough=6, prio=3),
    J('h_long', '+hashtable +hashdyn +hashlin ', 'fast', 3, 'MEM', thorough=9, tscale=8, prio=4),
    J('h_twin', '+hashtable +hashdyn +hashlin ', 'gasan', 600, 'MEM'),
])
P('C02', HASH + ' Keys share digit prefixes of every length.', [
    J('h_map', 'trie', 'steps', 640, 'MEM', prio=2),
    J('h_giant', '+trie +inplace', 'fast', 2, 'MEM', thorough=8, prio=3),
    J('h_map', 'trie', 'fast', 1600, 'MEM', prio=1),
    J('h_map', 'trie', 'fast32', 320, 'MEM'),
    J('h_map', 'trie small', 'gasan', 320, 'MEM'),
    J('h_giant', '+trie +inplace', 'fast32', 8, 'MEM', thorough=32, scale=0.05, tscale=0.2),
    J('h_many', '+trie +inplace ', 'fast', 2, 'MEM', thorough=4, prio=3),
    J('h_long', '+trie +inplace ', 'fast', 2, 'MEM', thorough=6, tscale=8, prio=4),
    J('h_twin', '+trie +inplace ', 'gasan', 400, 'MEM'),
])
P('C03', HASH + ' Bursts of equal keys are frequent; every bucket is followed in every audit.', [
    J('h_map', '', 'steps', 480, 'ORD', prio=2),
    J('h_giant', 'chain +hashtable +hashdyn +hashlin', 'fast', 6, 'ORD', thorough=24),
    J('h_giant', 'pairs +hashtable +hashdyn +hashlin +trie +inplace', 'fast', 5, 'ORD', thorough=10, prio=3),
    J('h_huge', '', 'fast', 16, 'ORD', thorough=200),
    J('h_map', 'hash', 'fast', 1200, 'ORD', prio=1),
    J('h_map', 'trie', 'fast', 800, 'ORD', prio=1),
    J('h_map', '', 'fast32', 320, 'ORD'),
    J('h_map', 'small', 'gasan', 320, 'ORD'),
    J('h_long', '+hashtable +hashdyn +hashlin +trie +inplace ', 'fast', 5, 'ORD', thorough=15, tscale=8, prio=4),
    J('h_twin', '+hashtable +hashdyn +hashlin +trie +inplace ', 'fast', 1600, 'ORD'),
])
TREE = 'Cases are random histories over trees with ascending, descending, alternating, clustered and random keys, and all the short insertion and removal sequences over small key sets.'
P('C04', TREE, [
    J('h_tree', '', 'steps', 2400, 'MEM', prio=2),
    J('h_giant', 'seq +tree', 'fast', 1, 'MEM', thorough=4, prio=4),
    J('h_tree', 'exhaustive', 'steps', 8, 'MEM', thorough=8, shards=8, prio=2),
    J('h_tree', 'free', 'gasan', 320, 'MEM'),
    J('h_tree', '', 'fast32', 800, 'MEM'),
    J('h_many', '+tree ', 'fast', 1, 'MEM', thorough=2, prio=3),
    J('h_long', '+tree ', 'fast', 1, 'MEM', thorough=3, tscale=8, prio=4),
], exhaustive='every insertion sequence of up to 8 keys followed by removals')
P('C05', TREE + ' After each operation the number of comparisons and of executed basic blocks is bounded, and the depths of all the objects, measured by searching them, determine the shape, which is checked.', [
    J('h_tree', '', 'steps', 2400, 'BAL', prio=2),
    J('h_tree', 'exhaustive', 'steps', 8, 'BAL', thorough=8, shards=8, prio=2),
    J('h_tree', 'huge', 'steps', 4, 'BAL', thorough=32),
    J('h_long', '+tree ', 'fast', 1, 'BAL', thorough=3, tscale=8, prio=4),
])
LIST = 'Cases are histories of insertions at both ends, removals, concatenations and sorts on up to four lists, with fourteen input patterns and ten comparison functions, and all the short sequences.'
P('C06', LIST, [
    J('h_list', '', 'steps', 1600, 'MEM', prio=2),
    J('h_giant', '+list', 'fast', 1, 'MEM', thorough=4, prio=3),
    J('h_list', '', 'fast', 4800, 'MEM'),
    J('h_list', 'free', 'gasan', 480, 'MEM'),
    J('h_list', 'exhaustive', 'fast', 8, 'MEM', thorough=8, shards=8),
    J('h_list', '', 'fast32', 1600, 'MEM'),
    J('h_many', '+list ', 'fast', 1, 'MEM', thorough=2, prio=3),
    J('h_long', '+list ', 'fast', 1, 'MEM', thorough=3, tscale=8, prio=4),
    J('h_twin', '+list ', 'gasan', 400, 'MEM'),
])
P('C07', LIST, [
    J('h_list', 'sort', 'steps', 800, 'ORD', prio=2),
    J('h_giant', '+list', 'fast', 1, 'ORD', thorough=4, prio=3),
    J('h_list', 'sort', 'fast', 4000, 'ORD'),
    J('h_list', 'exhaustive', 'fast', 8, 'ORD', thorough=8, shards=8),
    J('h_list', 'sort big', 'fast', 32, 'ORD', thorough=400),
    J('h_list', 'sort huge', 'fast', 2, 'ORD', thorough=16),
    J('h_list', 'sort', 'fast32', 800, 'ORD'),
    J('h_list', 'sort', 'asan', 320, 'ORD'),
    J('h_long', '+list ', 'fast', 1, 'ORD', thorough=3, tscale=8, prio=4),
    J('h_twin', '+list ', 'fast', 1600, 'MEM ORD'),
], exhaustive='every sequence of up to 7 keys taken from as many values')
P('C08', LIST + ' Comparisons are counted by the callback, work by the instrumentation of the basic blocks.', [
    J('h_list', 'sort', 'steps', 1600, 'WORK', prio=2),
    J('h_giant', '+list', 'fast', 0, 'WORK', thorough=4, prio=3),
    J('h_list', '', 'steps', 1200, 'WORK', prio=2),
    J('h_list', 'exhaustive', 'steps', 8, 'WORK', thorough=8, shards=8),
    J('h_list', 'sort big', 'steps', 32, 'WORK', thorough=400),
    J('h_list', 'sort huge', 'steps', 4, 'WORK', thorough=16),
    J('h_long', '+list ', 'fast', 1, 'WORK', thorough=3, tscale=8, prio=4),
], exhaustive='every sequence of up to 7 keys taken from as many values')
ARR = 'Cases are histories of grow, insert, set, get and ref on up to four arrays of the four types, with element sizes from 1 to 4097 bytes and sizes on both sides of every boundary; written values are checked through every accessor.'
P('C09', ARR, [
    J('h_array', '', 'fast', 1600, 'MEM ADDR', prio=2),
    J('h_array', '', 'gasan', 240, 'MEM ADDR'),
    J('h_array', '', 'fast32', 480, 'MEM ADDR'),
    J('h_array', 'huge', 'fast', 32, 'MEM ADDR', thorough=128),
    J('h_many', '+array +arrayof +arrayblk +arrayblkof ', 'fast', 4, 'MEM ADDR', thorough=8, prio=3),
])
ALLOC = 'Cases are histories of alloc and free on up to four allocators with random block sizes and alignments; every block is filled with its own pattern, checked again before it is freed.'
P('C10', ALLOC, [
    J('h_alloc', '', 'fast', 2400, 'MEM ADDR HEAP', prio=2),
    J('h_alloc', 'pow2', 'gasan', 400, 'MEM ADDR HEAP'),
    J('h_alloc', '', 'fast32', 800, 'MEM ADDR HEAP'),
    J('h_alloc', 'huge', 'fast', 32, 'MEM ADDR HEAP'),
    J('h_many', '+allocator ', 'fast', 1, 'MEM ADDR HEAP', thorough=2, prio=3),
    J('h_long', '+allocator ', 'fast', 1, 'MEM ADDR HEAP', thorough=3, tscale=8, prio=4),
])
P('C11', HASH + ' Foreach is called in every state, and also to deallocate the objects, which are freed or overwritten in the callback.', [
    J('h_map', 'hash', 'steps', 480, 'EACH', prio=2),
    J('h_giant', 'chain +hashtable +hashdyn +hashlin', 'fast', 6, 'EACH', thorough=24),
    J('h_giant', '+hashtable +hashdyn +hashlin', 'fast', 3, 'EACH', thorough=6, prio=3),
    J('h_map', 'hash free small', 'gasan', 640, 'EACH'),
    J('h_map', 'hash', 'fast32', 160, 'EACH'),
    J('h_list', 'free', 'gasan', 320, 'EACH'),
    J('h_list', '', 'steps', 800, 'EACH'),
    J('h_tree', 'free', 'gasan', 160, 'EACH'),
    J('h_tree', '', 'steps', 400, 'EACH'),
    J('h_mix', '', 'gasan', 64, 'EACH'),
    J('h_long', '+hashtable +hashdyn +hashlin +tree ', 'fast', 4, 'EACH', thorough=12, tscale=8, prio=4),
    J('h_giant', 'seq +tree', 'fast', 1, 'EACH', thorough=4, scale=0.1, tscale=1, prio=4),
    J('h_giant', '+list', 'fast', 1, 'EACH', thorough=4, scale=0.1, tscale=1, prio=4),
    J('h_twin', '+hashtable +hashdyn +hashlin +list ', 'fast', 1600, 'EACH'),
])
P('C12', 'All the workloads of the other properties, run under AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer with the assertions of the library enabled; memory for containers, nodes and heap blocks starts with random content.', [
    J('h_map', 'free small', 'asan', 480, '', prio=2),
    J('h_map', '', 'asan', 160, '', prio=2),
    J('h_map', 'free small', 'gasan32', 320, ''),
    J('h_map', 'small', 'msan', 480, ''),
    J('h_map', 'free small', 'asanport', 240, ''),
    J('h_list', 'free', 'asan', 320, ''),
    J('h_list', '', 'msan', 320, ''),
    J('h_list', 'free', 'gasan32', 160, ''),
    J('h_tree', 'free', 'asan', 160, ''),
    J('h_tree', '', 'msan', 120, ''),
    J('h_tree', 'free', 'gasan32', 80, ''),
    J('h_array', '', 'asan', 200, ''),
    J('h_array', '', 'msan', 80, ''),
    J('h_array', '', 'gasan32', 80, ''),
    J('h_alloc', 'pow2', 'asan', 400, ''),
    J('h_alloc', 'pow2', 'msan', 160, ''),
    J('h_alloc', 'pow2', 'gasan32', 160, ''),
    J('h_mix', '', 'asan', 64, ''),
    J('h_mix', '', 'gasan32', 32, ''),
    J('h_hash', '', 'asan', 16, ''),
    J('h_hash', 'exact', 'asan', 16, ''),
    J('h_hash', 'exact', 'gasan32', 16, ''),
    J('h_hash', '', 'msan', 16, ''),
    J('h_hash', 'bits64', 'asan', 8, '', thorough=64),
    J('h_hash', 'bits64', 'asanport', 8, '', thorough=64),
    J('h_hash', 'bits64', 'gasan32', 4, '', thorough=32),
    J('h_hash', 'int64', 'asan', 8, '', thorough=64),
    J('h_hash', 'int32', 'asan', 8, '', thorough=256),
    J('h_hash', 'int32', 'gasan', 4, '', thorough=64),
    J('h_hash', 'medium', 'asan', 4, '', thorough=16),
    J('h_array', 'huge', 'usan', 24, '', thorough=96),
    J('h_array', 'huge', 'cusan', 8, '', thorough=96),
    J('h_alloc', 'pow2 huge', 'usan', 16, '', thorough=96),
    J('h_huge', '', 'usan', 8, '', thorough=96),
    J('h_giant', '+hashtable +hashdyn +hashlin +trie +inplace +tree +list', 'asan', 7, '', thorough=42, scale=0.03, tscale=0.06),
    J('h_twin', '', 'gasan', 600, ''),
    J('h_twin', '', 'msan', 300, ''),
], assumptions=['the biased base pointers of array segments, formed but never dereferenced out of range, are not reported (-fno-sanitize=pointer-overflow)',
                'MemorySanitizer tracks the memory of the library and the harness, both instrumented'])
P('C13', 'The histories of the other properties over every container with a monitored heap behind the four allocation functions, which records every call, forbids them in the operations documented not to allocate, keeps guard areas around each block and knows which blocks are live; direct calls to the C heap are reported.', [
    J('h_map', '', 'steps', 480, 'HEAP', prio=2),
    J('h_giant', '+hashdyn +hashlin +trie', 'fast', 0, 'HEAP', thorough=6, prio=3),
    J('h_huge', '', 'fast', 16, 'HEAP', thorough=200),
    J('h_map', '', 'fast', 800, 'HEAP'),
    J('h_map', '', 'fast32', 160, 'HEAP'),
    J('h_list', '', 'fast', 800, 'HEAP'),
    J('h_tree', '', 'fast', 400, 'HEAP'),
    J('h_array', '', 'fast', 800, 'HEAP'),
    J('h_alloc', '', 'fast', 800, 'HEAP'),
    J('h_map', 'free small', 'gasan', 160, 'HEAP'),
    J('h_alloc', 'pow2', 'gasan', 160, 'HEAP'),
    J('h_giant', '+hashdyn +hashlin +trie', 'fast32', 12, 'HEAP', thorough=48, scale=0.05, tscale=0.2),
    J('h_many', '', 'fast', 13, 'HEAP', thorough=26, prio=3),
    J('h_long', '+hashtable +hashdyn +hashlin +trie +inplace +tree +list +allocator ', 'fast', 8, 'HEAP', thorough=24, tscale=8, prio=4),
])
P('C14', 'The histories of the other properties; after every operation or group of operations the reported usage is compared with the bytes requested to the monitored heap and the number of objects.', [
    J('h_map', '', 'steps', 480, 'USE', prio=2),
    J('h_giant', '+hashtable +hashdyn +hashlin +trie', 'fast', 4, 'USE', thorough=8, prio=3),
    J('h_huge', '', 'fast', 24, 'USE', thorough=200),
    J('h_map', '', 'fast', 1200, 'USE'),
    J('h_map', '', 'fast32', 240, 'USE'),
    J('h_tree', '', 'fast', 400, 'USE'),
    J('h_array', '', 'fast', 1200, 'USE'),
    J('h_array', 'huge', 'fast', 8, 'USE', thorough=32),
    J('h_array', '', 'fast32', 320, 'USE'),
    J('h_alloc', '', 'fast', 1600, 'USE'),
    J('h_alloc', 'huge', 'fast', 16, 'USE'),
    J('h_alloc', '', 'fast32', 400, 'USE'),
    J('h_giant', '+hashtable +hashdyn +hashlin +trie', 'fast32', 8, 'USE', thorough=48, scale=0.05, tscale=0.2),
    J('h_many', '', 'fast', 13, 'USE', thorough=26, prio=3),
    J('h_long', '+hashtable +hashdyn +hashlin +trie +inplace +tree +allocator ', 'fast', 7, 'USE', thorough=21, tscale=8, prio=4),
])
HASHV = 'Cases are batches of keys and strings of every length up to hundreds of bytes and random ones beyond, random content, initialization values and alignments, compared with independent implementations of the published functions, which are themselves tested with published values.'
P('C15', HASHV, [
    J('h_hash', '', 'fast', 160, 'MEM', prio=2),
    J('h_hash', '', 'd-clang-O3-ndebug', 80, 'MEM'),
    J('h_hash', '', 'fast32', 80, 'MEM'),
    J('h_hash', '', 'portable', 80, 'MEM'),
    J('h_hash', '', 'd-gcc-O0', 40, 'MEM'),
    J('h_hash', 'exact', 'gasan', 40, 'MEM'),
    J('h_hash', 'long', 'fast', 4, 'MEM', thorough=8, shards=4, prio=3),
    J('h_hash', 'long', 'fast32', 2, 'MEM', thorough=4, shards=2, prio=2),
    J('h_hash', 'medium', 'fast', 32, 'MEM'),
    J('h_hash', 'medium', 'portable', 16, 'MEM'),
    J('h_hash', 'medium', 'fast32', 16, 'MEM'),
])
P('C16', 'Keys and strings of every short length and alignment, and random longer ones, placed between inaccessible pages on both sides in read-only memory, and alone in their heap block under AddressSanitizer.', [
    J('h_hash', 'guard', 'fast', 1600, 'MEM', prio=2),
    J('h_hash', 'guard', 'd-clang-O3-ndebug', 800, 'MEM'),
    J('h_hash', 'guard', 'fast32', 800, 'MEM'),
    J('h_hash', 'guard', 'portable', 400, 'MEM'),
    J('h_hash', 'guard', 'd-gcc-O0', 400, 'MEM'),
    J('h_hash', 'exact', 'asan', 800, 'MEM'),
    J('h_hash', 'exact', 'gasan', 800, 'MEM'),
    J('h_hash', 'exact', 'gasan32', 400, 'MEM'),
])
P('C17', 'All the 2^32 keys of the 32-bit hash, against the published function and its inverse; for the 64-bit one random, sparse, dense and near-boundary keys, all the words of up to three bits, their complements and neighbours.', [
    J('h_hash', 'int32', 'fast', 256, 'MEM', thorough=256, prio=2),
    J('h_hash', 'int64', 'fast', 256, 'MEM', prio=1),
    J('h_hash', 'int64', 'fast32', 64, 'MEM'),
    J('h_hash', 'int32', 'portable32', 64, 'MEM', thorough=256),
    J('h_hash', 'int64', 'd-clang-O3-ndebug', 64, 'MEM'),
], exhaustive='all the 2^32 arguments of tommy_inthash_u32')
P('C18', 'All the 2^32 arguments of the 32-bit primitives with intrinsics and with portable code; for the 64-bit ones random words, and all those of up to three bits, their complements and neighbours.', [
    J('h_hash', 'bits32', 'fast', 256, 'MEM', thorough=256, prio=2),
    J('h_hash', 'bits32', 'portable', 256, 'MEM', thorough=256, prio=2),
    J('h_hash', 'bits32', 'fast32', 256, 'MEM', thorough=256),
    J('h_hash', 'bits32', 'portable32', 256, 'MEM', thorough=256),
    J('h_hash', 'bits32', 'd-clang-O3-ndebug', 64, 'MEM', thorough=256),
    J('h_hash', 'bits64', 'fast', 64, 'MEM'),
    J('h_hash', 'bits64', 'portable', 64, 'MEM'),
    J('h_hash', 'bits64', 'fast32', 64, 'MEM'),
    J('h_hash', 'bits64', 'portable32', 64, 'MEM'),
    J('h_hash', 'bits64', 'd-clang-O3-ndebug', 64, 'MEM'),
    J('h_hash', 'bits32', 'msvc', 64, 'MEM', thorough=256),
    J('h_hash', 'bits32', 'msvc32', 64, 'MEM', thorough=256),
    J('h_hash', 'bits64', 'msvc', 64, 'MEM'),
], exhaustive='all the 2^32 arguments of the 32-bit primitives, in four builds')
P('C19', HASH + ' The number of buckets is that of the memory obtained from the monitored heap.', [
    J('h_map', 'hash', 'steps', 640, 'SIZE', prio=2),
    J('h_giant', '+hashtable +hashdyn +hashlin', 'fast', 3, 'SIZE', thorough=6, prio=3),
    J('h_huge', '', 'fast32', 16, 'SIZE', thorough=100),
    J('h_huge', '', 'fast', 32, 'SIZE', thorough=400),
    J('h_map', 'dyn spread steps nodup mid', 'steps', 320, 'SIZE'),
    J('h_map', 'dyn spread steps nodup large', 'steps', 16, 'SIZE', thorough=160, prio=3),
    J('h_map', 'hash', 'fast32', 240, 'SIZE'),
    J('h_map', 'dyn spread huge', 'fast', 0, 'SIZE', thorough=12),
    J('h_long', '+hashdyn +hashlin ', 'fast', 2, 'SIZE', thorough=6, tscale=8, prio=4),
])
P('C20', 'Histories over linear hash tables with well spread or consecutive hashes, up to a million objects, growing and shrinking in every resize state with reversals of any amplitude; executed basic blocks are counted in each single operation.', [
    J('h_map', 'lin spread steps nodup mid', 'steps', 960, 'WORK', prio=2),
    J('h_map', 'lin spread steps nodup small', 'steps', 3200, 'WORK', prio=2),
    J('h_map', 'lin spread steps nodup large', 'steps', 16, 'WORK', thorough=160, prio=3),
    J('h_map', 'lin spread steps nodup mid', 'steps32', 160, 'WORK'),
    J('h_map', 'lin spread steps nodup huge', 'steps', 0, 'WORK', thorough=12),
])
P('C21', HASH + ' The number of inner nodes is compared with the one computed from the set of the contained keys alone; executed basic blocks are counted in each operation.', [
    J('h_map', 'trie steps small', 'steps', 1600, 'ECON', prio=2),
    J('h_map', 'trie steps', 'steps', 480, 'ECON', prio=2),
    J('h_map', 'trie', 'fast32', 320, 'ECON'),
    J('h_map', 'trie steps spread large', 'steps', 8, 'ECON', thorough=120, prio=3),
    J('h_many', '+trie ', 'fast', 1, 'ECON', thorough=2, prio=3),
    J('h_long', '+trie ', 'fast', 1, 'ECON', thorough=3, tscale=8, prio=4),
])
P('C22', 'Cases are runs of two to eight threads: on containers of their own without synchronisation, on containers shared under a lock, and reading together containers nobody modifies, with random yields and sleeps; ThreadSanitizer watches every access and the results are compared with those obtained by one thread.', [
    J('h_thread', '', 'tsan', 240, '', prio=2),
    J('h_thread', 'large', 'tsan', 16, '', thorough=160, prio=3),
    J('h_thread', 'large', 'gtsan', 16, '', thorough=160, prio=3),
    J('h_thread', '', 'gtsan', 144, '', prio=1),
    J('h_thread', '', 'tsanport', 72, '', prio=1),
    J('h_many', '', 'fast', 13, '', thorough=26, prio=3),
    J('h_many', '', 'gasan', 13, '', thorough=26, scale=0.03, tscale=0.1),
], assumptions=['ThreadSanitizer sees the accesses of the executions performed: a race on a path never executed by two threads is not seen'])
P('C24', 'Cases are histories over objects contained at once in up to fourteen containers (two of each kind) through different nodes at random offsets; after every call every byte of every object is compared with its shadow, and under AddressSanitizer every node not contained is poisoned.', [
    J('h_mix', '', 'steps', 800, 'OBJ', prio=2),
    J('h_mix', '', 'asan', 160, 'OBJ', prio=1),
    J('h_mix', '', 'gasan32', 80, 'OBJ'),
    J('h_mix', 'big', 'steps', 16, 'OBJ', thorough=200),
    J('h_map', 'free small', 'gasan', 400, 'OBJ'),
    J('h_tree', 'free', 'gasan', 80, 'OBJ'),
    J('h_list', 'free', 'gasan', 160, 'OBJ'),
    J('h_map', '', 'fast', 400, 'OBJ'),
    J('h_twin', '', 'fast', 2400, 'MEM OBJ'),
])
P('C25', HASH + ' Callbacks verify their arguments against the operation in progress.', [
    J('h_map', 'hash', 'steps', 640, 'CB', prio=2),
    J('h_map', 'hash', 'fast', 800, 'CB'),
    J('h_tree', '', 'steps', 800, 'CB'),
    J('h_list', 'sort', 'steps', 800, 'CB'),
    J('h_list', '', 'steps', 800, 'CB'),
    J('h_mix', '', 'steps', 320, 'CB', prio=1),
    J('h_mix', '', 'gasan', 48, 'CB'),
    J('h_map', 'hash', 'fast32', 160, 'CB'),
    J('h_long', '+hashtable +hashdyn +hashlin +tree ', 'fast', 4, 'CB', thorough=12, tscale=8, prio=4),
    J('h_twin', '+hashtable +hashdyn +hashlin +list ', 'fast', 1600, 'CB'),
])
P('C26', HASH + ' The library is compiled from copies of the tree in which only the documented parameters of the tries are edited.',
  [J('h_map', 'trie steps small', k, 1000, 'MEM ORD ECON', prio=1) for k in PARAMS] + [J('h_map', 'trie mid', k, 64, 'MEM ORD ECON', prio=1) for k in PARAMS] +
  [J('h_map', 'trie small', 'u' + k, 40, 'MEM ORD ECON', thorough=4000) for k in PARAMS])
P('C27', 'The histories of arrays and allocators; the bytes held by each container, and the requests it made, are those of the monitored heap.', [
    J('h_array', '', 'fast', 1600, 'SIZE', prio=2),
    J('h_array', 'huge', 'fast', 8, 'SIZE', thorough=32),
    J('h_array', '', 'fast32', 480, 'SIZE'),
    J('h_alloc', '', 'fast', 2400, 'SIZE', prio=2),
    J('h_alloc', 'huge', 'fast', 16, 'SIZE'),
    J('h_alloc', '', 'fast32', 800, 'SIZE'),
    J('h_long', '+allocator ', 'fast', 1, 'SIZE', thorough=3, tscale=8, prio=4),
])
P('C28', 'The histories of the other properties over arrays, allocators, hash tables, lists and trees, and batches of keys and strings; executed basic blocks are counted in each single operation.', [
    J('h_array', '', 'steps', 1600, 'COST', prio=2),
    J('h_array', 'huge', 'steps', 16, 'COST', thorough=64),
    J('h_alloc', '', 'steps', 2400, 'COST', prio=2),
    J('h_alloc', 'huge', 'steps', 16, 'COST'),
    J('h_map', 'hash', 'steps', 960, 'COST', prio=2),
    J('h_map', 'dyn spread nodup large', 'steps', 8, 'COST', thorough=160, prio=3),
    J('h_map', 'dyn spread nodup large thrash', 'steps', 8, 'COST', thorough=64, prio=3),
    J('h_map', '', 'steps32', 320, 'COST'),
    J('h_tree', '', 'steps', 400, 'COST'),
    J('h_list', '', 'steps', 400, 'COST'),
    J('h_hash', '', 'steps', 32, 'COST'),
    J('h_hash', 'medium', 'steps', 16, 'COST'),
    J('h_array', '', 'steps32', 320, 'COST'),
    J('h_alloc', '', 'steps32', 320, 'COST'),
])
P('C29', 'The histories of the other properties over all the containers, with large and long contents, and long keys; the lowest address of the stack is recorded at each executed basic block of the library, for each single operation.', [
    J('h_map', '', 'steps', 640, 'STACK', prio=2),
    J('h_map', 'mid', 'steps', 96, 'STACK', thorough=960, prio=2),
    J('h_map', 'large', 'steps', 8, 'STACK', thorough=80, prio=3),
    J('h_list', '', 'steps', 400, 'STACK'),
    J('h_list', 'sort big', 'steps', 16, 'STACK', thorough=160, prio=2),
    J('h_tree', '', 'steps', 400, 'STACK'),
    J('h_array', '', 'steps', 400, 'STACK'),
    J('h_array', 'huge', 'steps', 8, 'STACK'),
    J('h_alloc', '', 'steps', 1200, 'STACK'),
    J('h_alloc', 'huge', 'steps', 8, 'STACK'),
    J('h_hash', 'medium', 'steps', 64, 'STACK'),
    J('h_hash', '', 'steps', 128, 'STACK'),
    J('h_map', '', 'steps32', 160, 'STACK'),
    J('h_list', 'sort big', 'steps32', 8, 'STACK'),
    J('h_tree', '', 'steps32', 160, 'STACK'),
])
P('C30', 'Histories over all the containers sharing the same objects, from empty to tens of thousands; after single operations and between phases everything is mapped read-only and dozens of lookups of every kind run, for objects contained and absent; operations with nothing to do run between two digests of everything.', [
    J('h_frozen', '', 'frozen', 400, 'FROZEN', prio=2),
    J('h_frozen', '', 'frozen-O0', 200, 'FROZEN', prio=1),
    J('h_frozen', '', 'frozen-port', 120, 'FROZEN'),
    J('h_frozen', '', 'frozen32', 200, 'FROZEN'),
])
D = ['fast', 'd-gcc-O0', 'd-gcc-O3-ndebug', 'd-gcc-O3-native', 'd-gxx-O2', 'd-clang-O0', 'd-clang-O3-ndebug', 'd-clangxx-O2', 'd-portable-O3', 'portable', 'd-gcc-Os-89', 'd-gcc-c99', 'd-clang-c17', 'd-gxx-98', 'd-gcc-lto', 'msvc']
jobs = []
for h, v, n in [('h_map', 'w32 small', 160), ('h_map', 'small', 80), ('h_map', 'w32 mid', 16), ('h_list', '', 160), ('h_tree', '', 80), ('h_mix', '', 40), ('h_array', '', 40), ('h_alloc', '', 80), ('h_hash', '', 8), ('h_hash', 'int64', 1), ('h_hash', 'bits64', 1)]:
    for d in D:
        jobs.append(J(h, v, d, n, 'NONE' if 0 else '', group=h + ':' + v))
    if v.startswith('w32') or h in ('h_list', 'h_tree', 'h_mix') or (h == 'h_hash' and v != 'bits64'):
        for d in ('d-m32', 'd-m32-portable'):
            jobs.append(J(h, v, d, n, '', group=h + ':' + v))
    # other content of fresh memory, other addresses
    if h != 'h_hash':
        jobs.append(J(h, v + ' fill0', 'fast', n, '', group=h + ':' + v, env={'MALLOC_PERTURB_': '165', 'MALLOC_ARENA_TEST': '1'}))
        jobs.append(J(h, v + ' fill1', 'd-clang-O3-ndebug', n, '', group=h + ':' + v, env={'MALLOC_PERTURB_': '90', 'MALLOC_TOP_PAD_': '7340032', 'MALLOC_MMAP_THRESHOLD_': '4096'}))
    # the same cases after others: in the opposite order
    jobs.append(J(h, v + ' reverse', 'fast', n, '', group=h + ':' + v, shards=min(2, n)))
P('C23', 'Each case is a history executed in the reference build and in every other one: gcc and clang, C and C++, optimisation from -O0 to -O3, with and without assertions, intrinsics and portable code, 32 and 64 bits, different previous contents of memory and different addresses; the signatures of the traces of results are compared.', jobs, differential=True)


# the cheap checks run more cases
BOOST = {'C15': 10, 'C04': 3, 'C05': 2, 'C09': 3, 'C10': 4, 'C11': 1.5, 'C12': 2, 'C13': 1.5, 'C16': 3, 'C20': 2, 'C21': 2, 'C22': 4, 'C23': 4, 'C24': 2, 'C26': 10, 'C27': 3}


def jobs_for(pid, tier, cores):
    p = PLAN[pid]
    out = []
    for j in p['jobs']:
        n = j['quick'] if tier == 'quick' else j['thorough']
        if n >= 40 and not any(x in j['variant'] for x in ('huge', 'big', 'large', 'bits', 'int32')):
            n = int(n * BOOST.get(pid, 1))
        if n <= 0:
            continue
        shards = j['shards'] or min(2 * cores, max(1, n))
        name = '%s[%s]@%s' % (j['harness'], j['variant'], j['build'])
        out.append(Job(name, j['harness'], j['variant'], j['build'], n, mask(j['groups']), shards, j['scale'] if tier == 'quick' else j['tscale'],
                       j['timeout'] if tier == 'quick' else 6 * 3600, j['prio'], j['env'], j['group']))
    meta = dict(rule=p['rule'], differential=p.get('differential'), exhaustive=p.get('exhaustive'), assumptions=TRUST + p.get('assumptions', []))
    return out, meta
