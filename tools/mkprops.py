#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['tommyds/' + f for f in files],
            mechanism=[dict(name=n, where='tommyds/' + w) for n, w in mech],
            state=[dict(name=n, meaning=m, where='tommyds/' + w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

p('C01', 'Hash tables are faithful multimaps of the objects inserted in them',
  "At every point of every history, a fixed, dynamic or linear hash table contains exactly the objects inserted and not yet removed: search and remove return an object whose full-width hash equals the given one and for which the comparison function returns 0 if any such object is contained, and 0 otherwise; remove and remove-existing take out exactly that one object and return its data pointer; the count is the number of contained objects. "
  "The bucket returned for a hash is a 0-terminated chain holding every contained object with that hash. "
  "This is independent of how many objects there are, of how their hashes collide and of which resize steps happened on the way.",
  ['histories', 'inputs'], "all histories of init/insert/search/bucket/remove/remove_existing/done, all native-width hash values, all initial sizes of the fixed table",
  "check.c inserts up to 1M keys hashed by tommy_inthash_u32, in sequential or one random order, removes all of them and never mixes the operations; hashes above 32 bits, dense collisions, oscillation around resize thresholds and misses inside long chains are never produced.",
  ['tommyhashtbl.c', 'tommyhashtbl.h', 'tommyhashdyn.c', 'tommyhashdyn.h', 'tommyhashlin.c', 'tommyhashlin.h', 'tommylist.h'],
  [('bucket selection by mask', 'tommyhashtbl.c:tommy_hashtable_insert'), ('whole-table resize', 'tommyhashdyn.c:tommy_hashdyn_resize'),
   ('incremental split/merge and split pointer', 'tommyhashlin.c:hashlin_grow_step, hashlin_shrink_step'), ('bucket addressing through exponential segments', 'tommyhashlin.h:tommy_hashlin_pos, tommy_hashlin_bucket_ref')],
  [('bucket vector, masks, split', 'where each hash lives', 'tommyhashlin.h'), ('count', 'number of contained objects', 'tommyhash*.h')],
  ['return values of search/remove/remove_existing/bucket/count', 'objects reached by foreach'])

p('C02', 'Tries are faithful multimaps keyed by the full 32-bit key',
  "At every point of every history, a trie or in-place trie contains exactly the objects inserted and not yet removed: search and remove return an object inserted under exactly the given key if there is one, and 0 otherwise; remove and remove-existing take out exactly that one object and return its data pointer; the count is the number of contained objects. "
  "The bucket returned for a key is a 0-terminated chain of exactly the contained objects with that key, and 0 if there is none. "
  "This is independent of which keys share prefixes, of insertion and removal order, and of whether the object removed is the first, a middle or the last of its key.",
  ['histories', 'inputs'], "all histories of insert/search/bucket/remove/remove_existing over all keys in [0, 2^32)",
  "check.c inserts one dense (or one shuffled) range with one duplicate each and removes it all; keys differing only in the highest or lowest digits, chains of inner nodes down to the last level, removal of inner elements that still own subtrees and mixed histories are not reached.",
  ['tommytrie.c', 'tommytrie.h', 'tommytrieinp.c', 'tommytrieinp.h'],
  [('digit walk, leaf expansion', 'tommytrie.c:trie_bucket_insert'), ('leaf removal and inner node collapse', 'tommytrie.c:trie_bucket_remove_existing'),
   ('insert walk', 'tommytrieinp.c:trie_inplace_bucket_insert'), ('replacement of a removed element by a leaf, inheritance of the children', 'tommytrieinp.c:trie_inplace_bucket_remove')],
  [('bucket/map', 'first level and inner branches, tagged pointers', 'tommytrie.h, tommytrie.c, tommytrieinp.h')],
  ['return values of search/remove/remove_existing/bucket/count'])

p('C03', 'Objects with equal keys keep their insertion order',
  "In every hash table, trie and in-place trie, objects with the same hash or key are kept in insertion order: search returns, and remove takes out, the first matching one inserted, and following a bucket meets the objects of equal hash or key in insertion order. "
  "Growing, shrinking, splitting or merging the container, and removing any other objects, never reorders them.",
  ['histories', 'inputs'], "all histories, any number of equal keys, all resize and collapse paths in between",
  "check.c inserts at most one duplicate of each key and never looks at which of the equal objects comes back.",
  ['tommyhashtbl.c', 'tommyhashdyn.c', 'tommyhashlin.c', 'tommylist.h', 'tommytrie.c', 'tommytrieinp.c'],
  [('tail insertion', 'tommylist.h:tommy_list_insert_tail'), ('in-order redistribution', 'tommyhashdyn.c:tommy_hashdyn_resize, tommyhashlin.c:hashlin_grow_step'),
   ('concat on merge', 'tommylist.h:tommy_list_concat'), ('list of equals', 'tommytrie.c:trie_bucket_insert, tommytrieinp.c:tommy_trie_inplace_list_insert_tail_not_empty')],
  [], ['search/remove results', 'bucket chains'])

p('C04', 'The tree is an ordered set under its comparison function',
  "A tree holds at most one object for each equivalence class of its comparison function: insert links the object if no equal one is contained and otherwise leaves the tree unchanged and returns the contained one, also when it is the very same object. "
  "Search, search with a compatible comparison function, remove and remove-existing return the contained equal object or 0, and removing takes out exactly that object; the count is the number of objects contained. "
  "Foreach visits exactly the contained objects in strictly ascending order, after any history.",
  ['histories', 'inputs'], "all histories of insert/search/search_compare/remove/remove_existing, all total orders and magnitudes of comparison results, all suborders for search_compare",
  "check.c inserts and removes one sequence per order (250k elements); rejected duplicates in a populated tree, removal of inner nodes at every shape, misses of remove, search_compare on ranges and mixed histories are not covered.",
  ['tommytree.c', 'tommytree.h'],
  [('recursive insert with duplicate detection', 'tommytree.c:tommy_tree_insert_node'), ('removal joining the two subtrees', 'tommytree.c:tommy_tree_remove_node, tommy_tree_move_right'), ('rotations', 'tommytree.c:tommy_tree_balance')],
  [('root, count', 'the tree', 'tommytree.h')], ['return values, count, foreach order'])

p('C05', 'The tree stays AVL balanced, so every lookup path is logarithmic',
  "After any history of insertions and removals a tree of n objects is height balanced as an AVL tree: no search, hit or miss, calls the comparison function more than 1.4405*log2(n+2) times. "
  "Insert and remove need at most twice that many comparisons (two more for an insertion), and a rebalancing work bounded by a polynomial in log(n), never proportional to n.",
  ['histories', 'inputs'], "all histories, in particular monotone, alternating and removal-heavy ones",
  "check.c counts no comparison and would pass with an unbalanced tree as long as it is not catastrophically slow.",
  ['tommytree.c'],
  [('height bookkeeping and rotations', 'tommytree.c:tommy_tree_delta, tommy_tree_balance, tommy_tree_rotate_left, tommy_tree_rotate_right'), ('rebalancing along the removal path', 'tommytree.c:tommy_tree_move_right, tommy_tree_remove_node')],
  [('index', 'height of the subtree', 'tommytypes.h:tommy_node')], ['calls of the comparison function per operation', 'executed basic blocks per operation'])

p('C06', 'Lists are exact sequences with consistent links in both directions',
  "After any history of head and tail insertions, removals, concatenations and sorts, a list is exactly the sequence of objects the operations define: head, tail, count, empty, next links (0-terminated), prev links and foreach all agree on it. "
  "Removing an object returns its data pointer, keeps the order of the others and leaves the content of the removed node unchanged. "
  "Concatenating appends the second sequence after the first, whichever of the two is empty.",
  ['histories', 'inputs'], "all histories over several lists exchanging objects",
  "check.c builds lists of fixed patterns, sorts them and empties them; it removes only from one end, and never inspects the prev links or the removed nodes.",
  ['tommylist.h', 'tommylist.c', 'tommychain.h'],
  [('circular prev, 0-terminated next', 'tommylist.h:tommy_list_insert_first, tommy_list_insert_head_not_empty, tommy_list_insert_tail_not_empty'), ('removal', 'tommylist.h:tommy_list_remove_existing'), ('concat', 'tommylist.h:tommy_list_concat'), ('relinking after sort', 'tommylist.c:tommy_list_set')],
  [('head pointer', 'the list', 'tommylist.h')], ['head/tail/next/prev/count/foreach'])

p('C07', 'Sorting a list is a stable permutation into non-decreasing order',
  "Sorting leaves exactly the same objects in the list, in non-decreasing order of the comparison function, with objects that compare equal kept in their previous relative order, and with all links consistent. "
  "This holds for every length, every arrangement of the input and every magnitude of the comparison results.",
  ['inputs'], "all lists: any length, any pattern of runs, duplicates and partial order, any total preorder",
  "check.c sorts seven patterns of one length with one duplicate per value.",
  ['tommylist.c', 'tommychain.h'],
  [('bottom-up merge of runs of power of two size', 'tommychain.h:tommy_chain_mergesort'), ('stable merge', 'tommychain.h:tommy_chain_merge'), ('shortcuts for already ordered and reversed runs', 'tommychain.h:tommy_chain_merge_degenerated')],
  [], ['sequence of objects after the sort, compared with an independent stable sort'])

p('C08', 'List and sort operations stay within their documented cost',
  "Inserting at either end, removing, taking head or tail and concatenating take a constant number of steps whatever the list length. "
  "Sorting n objects needs at most n*log2(n)+2n comparisons and O(n log n) steps for every input, and only O(n) comparisons when the list is already ordered or strictly reversed.",
  ['inputs', 'histories'], "all lengths and arrangements, adversarial merge patterns included",
  "check.c counts neither comparisons nor steps.",
  ['tommylist.h', 'tommychain.h'],
  [('single pointer list with circular prev', 'tommylist.h'), ('counter-driven merge schedule', 'tommychain.h:tommy_chain_mergesort'), ('degenerate merges', 'tommychain.h:tommy_chain_merge_degenerated')],
  [], ['comparison callback count', 'executed basic blocks per operation'])

p('C09', 'Arrays behave as zero-initialised vectors with elements that never move',
  "All four array types behave as vectors indexed from 0 to size-1: grow sets the size to the requested one if larger and otherwise changes nothing, insert appends, and get, set and ref at an index always denote the same storage, which no operation on another index or array alters. "
  "Elements never written read as all zero bytes. "
  "The address of an element never changes during the life of the array, and element storages are disjoint and of the full element size, for every element size and array size.",
  ['histories', 'inputs'], "all interleavings of grow/insert/set/get over several arrays, all element sizes, all indexes including those next to segment and block boundaries and above 2^32",
  "check.c grows one array of pointers or 32-bit integers element by element to 50M and rereads it; sparse growth, other element sizes, zero initialisation, address stability and indexes above 2^26 are not looked at.",
  ['tommyarray.c', 'tommyarray.h', 'tommyarrayof.c', 'tommyarrayof.h', 'tommyarrayblk.c', 'tommyarrayblk.h', 'tommyarrayblkof.c', 'tommyarrayblkof.h'],
  [('exponential segments indexed by the highest bit', 'tommyarray.c:tommy_array_grow, tommyarray.h:tommy_array_ref, tommyarrayof.c, tommyarrayof.h'), ('fixed blocks', 'tommyarrayblk.c:tommy_arrayblk_grow, tommyarrayblkof.c:tommy_arrayblkof_grow')],
  [('bucket, bucket_max, bucket_bit, count', 'segments and size', 'tommyarray.h, tommyarrayof.h')], ['ref addresses, element contents, size'])

p('C10', 'The allocator hands out disjoint, aligned, reusable blocks',
  "For every block size from one byte up and every alignment, each block obtained from an allocator is aligned as requested, has at least the requested size, lies inside memory the allocator owns and overlaps no other live block or bookkeeping, so the content the user stores in it stays intact until it is freed. "
  "Freed blocks are reused before more memory is requested, live blocks survive any history of alloc and free, and done returns everything to the heap leaving the allocator ready for use again.",
  ['histories', 'inputs'], "all block sizes and alignments (odd ones, non powers of two, larger than the default segment), all alloc/free/done histories, all addresses the heap may return",
  "check.c uses only 64-byte blocks aligned to 64 bytes and never writes into them.",
  ['tommyalloc.c', 'tommyalloc.h'],
  [('carving a segment into blocks', 'tommyalloc.c:tommy_allocator_alloc'), ('free list', 'tommyalloc.c:tommy_allocator_free'), ('release of the segments', 'tommyalloc.c:allocator_reset')],
  [('free_block, used_segment', 'free blocks and owned segments', 'tommyalloc.h')], ['returned addresses, block contents, heap events'])

p('C11', 'Foreach visits every object exactly once and may deallocate it',
  "On every container that offers them, foreach and foreach-with-argument call the callback exactly once for each contained object and for nothing else, passing the data pointer (and the given argument), whatever resize or shape state the container is in; lists go from head to tail and trees in ascending order. "
  "An object is never touched again once its callback has been called, so the callback may deallocate it.",
  ['histories', 'inputs'], "all histories before the iteration, including tables in the middle of a progressive grow or shrink",
  "check.c only counts callbacks on fully grown containers, and never frees from the callback.",
  ['tommyhashtbl.c', 'tommyhashdyn.c', 'tommyhashlin.c', 'tommytree.c', 'tommylist.h'],
  [('iteration over used buckets', 'tommyhashlin.c:tommy_hashlin_foreach, tommyhashdyn.c:tommy_hashdyn_foreach, tommyhashtbl.c:tommy_hashtable_foreach'), ('next taken before the callback', 'tommylist.h:tommy_list_foreach, tommytree.c:tommy_tree_foreach_node')],
  [], ['callback invocations, memory accesses after the callback'])

p('C12', 'No operation used within its contract has undefined behaviour',
  "Used within their documented contract, no function reads or writes outside the containers, nodes, keys and memory it owns, uses freed or uninitialised memory, or executes any other undefined behaviour. "
  "This holds for every history and input, whatever the previous content of the memory given for containers, nodes and heap blocks. (Forming, without dereferencing, the biased base pointers of array and bucket segments is the documented idiom of the library and not counted.)",
  ['histories', 'inputs'], "all operations of all modules over all valid histories and inputs, 64-bit and 32-bit builds",
  "The existing tests run without instrumentation, on a few histories, over memory that happens to be valid or zero.",
  ['tommyalloc.c', 'tommyarray.c', 'tommyarrayof.c', 'tommyarrayblk.c', 'tommyarrayblkof.c', 'tommyhash.c', 'tommyhashtbl.c', 'tommyhashdyn.c', 'tommyhashlin.c', 'tommylist.c', 'tommytree.c', 'tommytrie.c', 'tommytrieinp.c', 'tommytypes.h', 'tommychain.h'],
  [('segment pointers biased by their first index', 'tommyhashlin.c, tommyarray.c, tommyarrayof.c'), ('tagged pointers', 'tommytrie.c'), ('unsigned shifts and masks', 'tommytypes.h'), ('initialisation of grown buckets', 'tommyhashdyn.c, tommyhashlin.c')],
  [], ['AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, valgrind and guard pages'])

p('C13', 'Heap use: only through the configured functions, released once, never moved',
  "All memory is obtained and released through the four overridable allocation functions, every block obtained is released exactly once by the matching done (or earlier) and nothing else is released, so that after done no block is left. "
  "Searches, iterations, counts and every operation of lists, trees and in-place tries never touch the heap; tries touch it only through the allocator they were given. A removal never requests memory, but for the smaller vector of a dynamic hash table. "
  "Arrays and linear hash tables never reallocate or release a segment while it is in use, and a dynamic hash table holds at most its old and new bucket vectors at once.",
  ['histories', 'inputs'], "all histories, ended by done at any size and in any state of a progressive resize",
  "check.c never looks at the heap.",
  ['tommytypes.h', 'tommyalloc.c', 'tommyarray.c', 'tommyarrayof.c', 'tommyarrayblk.c', 'tommyarrayblkof.c', 'tommyhashtbl.c', 'tommyhashdyn.c', 'tommyhashlin.c', 'tommytrie.c'],
  [('overridable tommy_malloc/calloc/realloc/free', 'tommytypes.h'), ('done functions', 'tommyhashlin.c:tommy_hashlin_done, tommyarray.c:tommy_array_done, tommyalloc.c:tommy_allocator_done'), ('release of the upper half when a shrink completes', 'tommyhashlin.c:hashlin_shrink_step')],
  [], ['every call of tommy_malloc/calloc/realloc/free, with its size'])

p('C14', 'memory_usage reports exactly the memory in use',
  "At every point, the memory usage reported by a container equals the memory it really holds: for hash tables the current bucket vector plus one node per object, for trees and in-place tries one node per object, for tries one node per object plus one block per inner node in use, for arrays the total of the segments or blocks allocated, for allocators the live blocks times the effective block size.",
  ['histories', 'inputs'], "all histories and element sizes, all states of a progressive resize",
  "check.c only checks that the value is not lower than a bound at one moment.",
  ['tommyalloc.c', 'tommyarray.c', 'tommyarrayof.c', 'tommyarrayblk.c', 'tommyarrayblkof.c', 'tommyhashtbl.c', 'tommyhashdyn.c', 'tommyhashlin.c', 'tommytree.c', 'tommytrie.c', 'tommytrieinp.c'],
  [('*_memory_usage functions', 'tommyhashtbl.c, tommyhashdyn.c, tommyhashlin.c, tommytree.c, tommytrie.c, tommytrieinp.c, tommyarray*.c, tommyalloc.c'), ('inner node accounting', 'tommytrie.c:trie_bucket_insert, trie_bucket_remove_existing')],
  [], ['return value against the recorded heap events and the model'])

p('C15', 'Hash functions compute their published lookup3 values on every input',
  "For every key content, length (above 2^32 too), address and initialization value, the 32-bit and 64-bit hash functions return the values of Robert Jenkins' lookup3 hashlittle and hashlittle2, and the string hash returns its documented lookup3 variant, which depends only on the characters before the terminator. "
  "The result depends on nothing else: not on the alignment of the key, the surrounding memory, the platform or previous calls.",
  ['inputs', 'configurations'], "all byte strings, lengths, alignments and initialization values",
  "check.c compares 62 lengths of one string, at one alignment and with one initialization value.",
  ['tommyhash.c', 'tommyhash.h'],
  [('block mixing, tail switch, final mixing', 'tommyhash.c:tommy_hash_u32, tommy_hash_u64'), ('terminator detection', 'tommyhash.c:tommy_strhash_u32, tommytypes.h:tommy_haszero_u32')],
  [], ['returned value against an independent implementation'])

p('C16', 'Hash functions read the key only, and never outside of it',
  "The hash functions read nothing but the bytes of the key: the given number of bytes, or the characters of the string and its terminator. "
  "They can be called on keys that end at the last byte of accessible memory or start at the first one, at any alignment, and never write.",
  ['inputs'], "all lengths and alignments, keys placed against inaccessible memory on both sides, read-only memory, uninitialised memory next to the key",
  "Keys in check.c are string literals surrounded by readable memory.",
  ['tommyhash.c'],
  [('32-bit reads of the key', 'tommyhash.c:tommy_le_uint32_read'), ('tail handling', 'tommyhash.c:tommy_hash_u32, tommy_hash_u64'), ('string reads', 'tommyhash.c:tommy_strhash_u32')],
  [], ['page faults at guard pages, AddressSanitizer and MemorySanitizer reports'])

p('C17', 'Integer hashes are bijective and equal to their published functions',
  "The 32-bit and 64-bit integer hashes are reversible: no two different keys have the same hash, so distinct integer keys never collide at full width. "
  "They return for every key the values of the published Jenkins and Wang functions.",
  ['inputs'], "all 2^32 and all 2^64 keys",
  "check.c compares them with fixed tables of a few tens of values out of 2^32 and 2^64, and never looks for collisions.",
  ['tommyhash.h'],
  [('invertible shift, add and xor steps', 'tommyhash.h:tommy_inthash_u32, tommy_inthash_u64')],
  [], ['returned values against an independent implementation, its inverse, and exhaustively a bitmap for 32 bits'])

p('C18', 'Bit primitives are exact on their whole domain in every build variant',
  "The base-2 logarithm, trailing-zero count, round-up to a power of two and zero-byte test return the mathematically exact result for every valid 32-bit and 64-bit argument. "
  "They do so both with compiler intrinsics and with the portable code used on other compilers.",
  ['inputs', 'configurations'], "all non-zero arguments for the logarithm and trailing zeros, all arguments up to the largest representable power of two for the round-up, all arguments for the zero-byte test; intrinsic and portable variants",
  "check.c never calls them directly, and always compiles the intrinsic variants.",
  ['tommytypes.h'],
  [('intrinsics and de Bruijn tables', 'tommytypes.h:tommy_ilog2_u32, tommy_ilog2_u64, tommy_ctz_u32, tommy_ctz_u64'), ('bit smearing', 'tommytypes.h:tommy_roundup_pow2_u32, tommy_roundup_pow2_u64'), ('carry trick', 'tommytypes.h:tommy_haszero_u32'), ('constant logarithm', 'tommytypes.h:TOMMY_ILOG2')],
  [], ['returned values against a bit by bit definition, exhaustive for 32 bits'])

p('C19', 'Hash tables size themselves to keep chains short and memory proportional',
  "The fixed table has the requested number of buckets rounded up to a power of two (at least 16). "
  "After every operation the dynamic and linear tables have a number of buckets proportional to the objects: a load of at most 0.5 after an insertion, and after a removal a load of at least about 0.125 (1/16 of the allocated buckets for the linear one) or the minimal size, with enough hysteresis that no constant-size workload resizes repeatedly. "
  "With well spread hashes every chain and search is thus short, at any size and in any resize state.",
  ['histories', 'inputs'], "all histories growing, shrinking, oscillating and holding steady, any size",
  "check.c would pass with a table that never resizes or resizes at every operation.",
  ['tommyhashtbl.c', 'tommyhashdyn.c', 'tommyhashlin.c', 'tommyhashlin.h'],
  [('resize thresholds', 'tommyhashdyn.c:hashdyn_grow_step, hashdyn_shrink_step, tommyhashlin.c:hashlin_grow_step, hashlin_shrink_step'), ('round-up of the size', 'tommyhashtbl.c:tommy_hashtable_init'), ('addressing of the split buckets', 'tommyhashlin.h:tommy_hashlin_bucket_ref')],
  [('bucket_max', 'allocated buckets', 'tommyhash*.h')], ['heap events, memory_usage, chain lengths, executed basic blocks'])

p('C20', 'The linear hash table never stalls: every operation does bounded work',
  "In the linear hash table the work of each single insertion or removal is bounded by a constant plus the length of the few chains it meets, whatever the number of objects: resizing is spread over the operations and never done in a burst. "
  "This holds in every history, also when growth and shrinkage alternate at any moment of a resize in progress.",
  ['histories'], "all histories, in particular reversals between growing and shrinking at every stage, and any size",
  "check.c measures no operation, and never reverses direction in the middle of a resize.",
  ['tommyhashlin.c'],
  [('progressive split', 'tommyhashlin.c:hashlin_grow_step'), ('progressive merge', 'tommyhashlin.c:hashlin_shrink_step'), ('segments not cleared nor copied', 'tommyhashlin.c')],
  [('state, split, low_max', 'progress of the resize', 'tommyhashlin.h')], ['executed basic blocks of each single operation'])

p('C21', 'Tries use only the inner nodes their keys require, and return them',
  "The inner nodes of a trie depend only on the set of keys contained, never on the history: those of the digit prefixes shared by two different keys, counted from the last digit of the root, none for duplicates. "
  "They are taken from and returned to the allocator as soon as they stop being required, an emptied trie holds none, and several tries may share one allocator without affecting one another. "
  "Lookups, insertions and removals take a number of steps bounded by the number of digits in the key (tries) plus the number of branches, not by the number of objects.",
  ['histories', 'inputs'], "all histories over all key sets, several tries on one allocator",
  "check.c looks at the allocator only once, through a lower bound of the memory usage.",
  ['tommytrie.c', 'tommytrie.h', 'tommytrieinp.c', 'tommyalloc.c'],
  [('expansion only down to the first differing digit', 'tommytrie.c:trie_bucket_insert'), ('collapse of inner nodes with a single leaf', 'tommytrie.c:trie_bucket_remove_existing'), ('one level for each digit', 'tommytrieinp.c')],
  [('node_count', 'inner nodes in use', 'tommytrie.h')], ['allocator usage, trie memory usage, executed basic blocks per operation'])

p('C22', 'Containers not shared between threads never interfere',
  "The library has no hidden shared state: threads using different containers need no synchronisation at all, threads sharing a container under a lock see it as if used by one thread, and any number of threads may search, follow buckets, count, iterate or read elements concurrently in a container nobody modifies. "
  "None of these uses contains a data race, and each thread obtains the results it would obtain alone.",
  ['schedules', 'histories'], "all schedules of threads on distinct containers, on lock-protected containers and of concurrent readers",
  "The tests are single threaded.",
  ['tommyhash.c', 'tommyhashtbl.h', 'tommyhashdyn.h', 'tommyhashlin.h', 'tommytree.c', 'tommytrie.c', 'tommytrieinp.c', 'tommylist.h', 'tommyarray.h', 'tommyalloc.c', 'tommytypes.h'],
  [('state only in the containers', 'tommyds/*'), ('lookups that never write', 'tommyhashlin.h:tommy_hashlin_search, tommytree.c:tommy_tree_search, tommytrie.c:tommy_trie_bucket, tommytrieinp.c:tommy_trie_inplace_bucket')],
  [], ['ThreadSanitizer reports, digest of the results of each thread'])

p('C23', 'Behaviour is the same in every supported build and memory state',
  "The observable results of any sequence of operations are identical in every build configuration: C or C++, any compiler and optimisation level, with or without assertions, intrinsics or portable code, and the same for 32-bit as for 64-bit builds on values that fit. "
  "They do not depend on addresses, on the previous content of memory or on earlier use of other containers.",
  ['configurations', 'histories'], "all histories over the matrix of build configurations and over different initial contents of heap and container memory",
  "check.c is built in one configuration, and its result is only pass or fail.",
  ['tommytypes.h', 'tommy.c', 'tommy.h', 'tommyhash.c', 'tommytrie.h', 'tommyhashlin.h', 'tommyarray.h'],
  [('type width selection', 'tommytypes.h'), ('compiler dependent macros', 'tommytypes.h'), ('width dependent parameters', 'tommytrie.h, tommyhashlin.h'), ('expressions with side effects kept out of assert', 'tommytree.c:tommy_tree_remove_existing, tommytrie.c, tommytrieinp.c')],
  [], ['digests of the complete result trace of the same workload in each configuration'])

p('C24', 'Objects are touched only through their own node, only while contained',
  "A container writes only to the node given at insertion: no other byte of the object changes, so an object may be in any number of containers at once through different nodes, and operations on one of them never disturb the others. "
  "A node's data pointer stays the one given at insertion for as long as it is contained. "
  "After the removal, and after done, the container never reads or writes the object again, so it can be freed, reused or inserted elsewhere at once.",
  ['histories', 'inputs'], "all histories over objects contained in several containers of all kinds, freed or overwritten as soon as they are removed",
  "check.c keeps its objects in static arrays with one node each, and never frees or overwrites them between operations.",
  ['tommytypes.h', 'tommylist.h', 'tommyhashtbl.c', 'tommyhashdyn.c', 'tommyhashlin.c', 'tommytree.c', 'tommytrie.c', 'tommytrieinp.c'],
  [('embedded nodes', 'tommytypes.h:tommy_node, tommytrieinp.h:tommy_trie_inplace_node'), ('unlinking on removal', 'tommylist.h:tommy_list_remove_existing, tommytrie.c, tommytrieinp.c, tommytree.c')],
  [('data, index/key', 'object and key of the node', 'tommytypes.h')], ['bytes of the objects outside the nodes, node fields, memory accesses to freed objects'])

p('C25', 'Callbacks are called only as documented, with the arguments given',
  "A search or remove on a hash table calls the comparison function only with the given argument first and, second, objects that are contained and have the given hash, and stops at the first match; the tree calls its function with the searched element first and a contained object second; a sort only with two objects of the list. "
  "No callback is called by any other operation, after the operation returned, or with another context, so callbacks may rely on it. "
  "The library keeps nothing outside the containers: a callback may use every other container in any way, and search or iterate the one that called it while that one is only being searched or iterated, without changing the result of the operation in progress.",
  ['histories', 'inputs'], "all histories, all operations taking a callback",
  "Callbacks in check.c do not check how they are called.",
  ['tommyhashtbl.c', 'tommyhashtbl.h', 'tommyhashdyn.c', 'tommyhashdyn.h', 'tommyhashlin.c', 'tommyhashlin.h', 'tommytree.c', 'tommychain.h'],
  [('hash compared before the callback', 'tommyhashtbl.h:tommy_hashtable_search, tommyhashdyn.h, tommyhashlin.h'), ('argument order', 'tommytree.c:tommy_tree_search_node, tommy_tree_remove_node'), ('merge comparisons', 'tommychain.h')],
  [], ['every callback invocation'])

p('C26', 'The documented trie parameters can be changed without losing any guarantee',
  "With any supported value of the key width and branch parameters of the tries (key width up to the native word, branches a power of two), both tries remain faithful, insertion-ordered multimaps over the whole configured key range, with inner nodes as economical as in the default configuration.",
  ['configurations', 'histories', 'inputs'], "supported values of the four parameters, all histories and keys of the configured width",
  "check.c is built with the default parameters only.",
  ['tommytrie.h', 'tommytrie.c', 'tommytrieinp.h', 'tommytrieinp.c'],
  [('derived digit and first level widths', 'tommytrie.h, tommytrieinp.h'), ('digit walks', 'tommytrie.c, tommytrieinp.c')],
  [], ['same as the two trie properties, on builds with edited parameter values'])

p('C27', 'Arrays and allocators take memory in proportion to what they hold',
  "An exponential array (tommy_array, tommy_arrayof) of n elements holds memory for less than twice as many elements, and at least 64, obtained with at most one heap request for each doubling. "
  "A block array (tommy_arrayblk, tommy_arrayblkof) holds just the blocks of 4096 elements needed for its elements, each obtained with one request, plus a vector of pointers to them growing as an exponential array. "
  "An allocator of which at most m blocks were in use together, since its initialisation or its last done, holds no more segments than needed to cut m blocks from segments shorter than 4096 bytes (or, for blocks not fitting there, one segment per block just long enough for it), so that no memory is wasted beyond headers, alignment and the rest of the last segment; one request serves at least eight blocks when blocks and alignment are of at most 64 bytes. "
  "Initialised, and not yet used, an allocator holds no memory.",
  ['histories', 'inputs'], "all histories of grow/insert, of alloc/free, all element sizes, block sizes and alignments",
  "check.c looks only at the correctness of the contents; the memory reported by memory_usage is not compared with the elements.",
  ['tommyarray.c', 'tommyarrayof.c', 'tommyarrayblk.c', 'tommyarrayblkof.c', 'tommyalloc.c'],
  [('doubling of the segments', 'tommyarray.c:tommy_array_grow, tommyarrayof.c:tommy_arrayof_grow'), ('number of blocks for a size', 'tommyarrayblk.c:tommy_arrayblk_grow, tommyarrayblkof.c:tommy_arrayblkof_grow'),
   ('cutting of a segment in blocks, allocation only when no block is free', 'tommyalloc.c:tommy_allocator_alloc')],
  [('bucket_max, block, free_block, used_segment', 'capacity and segments owned', 'tommyarray*.h, tommyalloc.h')], ['heap requests and bytes through the allocation functions'])

p('C28', 'Every operation has its documented cost, with no hidden dependence on the size',
  "Getting, setting or referencing an array element, and asking the size, take a constant number of steps at any index and size; growing or appending takes a constant number for each heap request plus the clearing of the memory newly requested. "
  "Allocating from and freeing to an allocator take a constant number of steps, but for the blocks cut from a newly requested segment (at most a page), and done takes steps in proportion to the segments. "
  "Inserting in and removing a given object from a fixed or dynamic hash table takes a constant number of steps however long the chains are, and removing by hash no more than following one chain, but for the resizes of the dynamic table: each is linear in its size, and all those of a history together are in proportion to its number of operations. "
  "Bucket heads, counts and memory usage of hash tables, and counts and memory usage of trees and tries, take constant steps. Foreach is linear in the objects (plus the buckets of a hash table), and the hash functions are linear in the length of the key.",
  ['histories', 'inputs'], "all histories of operations, sizes, element sizes, block sizes, hash collisions and key lengths",
  "check.c measures the total time of a few histories, and compares it with nothing.",
  ['tommyarray.c', 'tommyarray.h', 'tommyarrayof.c', 'tommyarrayof.h', 'tommyarrayblk.c', 'tommyarrayblk.h', 'tommyarrayblkof.c', 'tommyarrayblkof.h', 'tommyalloc.c', 'tommyhashtbl.c', 'tommyhashtbl.h', 'tommyhashdyn.c', 'tommyhashdyn.h', 'tommyhash.c', 'tommylist.h', 'tommytree.c'],
  [('growth by new segments only', 'tommyarray.c:tommy_array_grow, tommyarrayof.c, tommyarrayblk.c, tommyarrayblkof.c'), ('free list', 'tommyalloc.c:tommy_allocator_alloc, tommy_allocator_free'), ('tail insertion through the prev link of the head', 'tommylist.h:tommy_list_insert_tail_not_empty'),
   ('resizes by doubling and halving', 'tommyhashdyn.c:tommy_hashdyn_resize, hashdyn_grow_step, hashdyn_shrink_step'), ('block loops', 'tommyhash.c')],
  [('count', 'stored, not counted', 'tommyhashdyn.h, tommytree.h, tommytrie.h')], ['executed basic blocks of each operation, bytes given to memset and the like, heap requests'])

p('C29', 'No operation needs stack in proportion to what the containers hold',
  "Every operation on every container, sort, foreach and done included, and every hash function, uses an amount of stack which is bounded by a small constant (for trees, by the height of the tree, so that it is logarithmic), whatever the number of objects, the length of the chains and lists, the number of segments, the order of the insertions, or the length of the key. "
  "So containers of millions of objects can be used, sorted, visited and released by threads with small stacks.",
  ['histories', 'inputs'], "all histories of operations, sizes, keys and orders",
  "check.c runs with the stack of the main thread, of 8 MiB, and never measures it.",
  ['tommychain.h', 'tommylist.c', 'tommylist.h', 'tommytree.c', 'tommytrie.c', 'tommytrieinp.c', 'tommyhashtbl.c', 'tommyhashdyn.c', 'tommyhashlin.c', 'tommyalloc.c', 'tommyarray.c', 'tommyarrayblk.c', 'tommyarrayblkof.c', 'tommyhash.c'],
  [('bottom-up merges over a vector of chains, one for each bit of the length', 'tommychain.h:tommy_chain_mergesort'), ('recursions over the height only', 'tommytree.c:tommy_tree_insert_node, tommy_tree_remove_node, tommy_tree_foreach_node'), ('descents written as loops', 'tommytrie.c:trie_bucket_insert, trie_bucket_remove_existing, tommytrieinp.c'), ('loops over chains and segments', 'tommyhashlin.c:tommy_hashlin_foreach, tommyalloc.c:allocator_reset')],
  [('index', 'height of the subtree, which bounds the recursions', 'tommytree.h (tommy_node::index)')], ['stack pointer at the executed basic blocks of each operation'])
p('C30', 'Lookups and operations with nothing to do leave every byte as it was',
  "Search, bucket, iteration, count, memory usage, the head, tail and emptiness of lists, the size and the elements of arrays only look: they store nothing in the container, in its memory, in the nodes, in the objects or in static memory, not even the value already there. So they work on memory mapped read-only, in a signal handler which interrupted another lookup, in a forked process without copying its pages, and from many threads at once. "
  "An operation that has nothing to do leaves container, nodes and memory as they were: a removal that finds nothing, the insertion in a tree of an element equal to one contained, growing an array to a size not larger, concatenating an empty list, sorting an empty one.",
  ['histories', 'inputs'], "all lookups, of objects contained or absent, in all the states reached by histories of insertions and removals",
  "check.c keeps everything in writable memory and looks at results only.",
  ['tommyhashtbl.h', 'tommyhashtbl.c', 'tommyhashdyn.h', 'tommyhashdyn.c', 'tommyhashlin.h', 'tommyhashlin.c', 'tommytree.c', 'tommytrie.c', 'tommytrie.h', 'tommytrieinp.c', 'tommytrieinp.h', 'tommylist.h', 'tommyarray.h', 'tommyarrayof.h', 'tommyarrayblk.h', 'tommyarrayblkof.h', 'tommyalloc.c'],
  [('lookups that only follow pointers', 'tommyhashlin.h:tommy_hashlin_bucket_ref, tommy_hashlin_search, tommytree.c:tommy_tree_search_node, tommytrie.c:tommy_trie_bucket, tommytrieinp.c:tommy_trie_inplace_bucket'), ('removal that returns before changing anything', 'tommyhashtbl.c:tommy_hashtable_remove, tommyhashdyn.c:tommy_hashdyn_remove, tommyhashlin.c:tommy_hashlin_remove, tommytrie.c:tommy_trie_remove, tommytree.c:tommy_tree_remove'), ('growth only to larger sizes', 'tommyarray.c:tommy_array_grow, tommyarrayblk.c:tommy_arrayblk_grow')],
  [], ['write faults on memory mapped read-only during the lookup', 'bytes of the containers, nodes, objects, heap and static data before and after'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
