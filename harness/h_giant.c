/* One container with more than 2^24 objects, the membership of which is known by arithmetic: object i has the key
 * key_of(i), and after the partial removal only the objects with i % 3 == 0 are contained. */
#include "sut.h"
#include "sut_api.h"

enum { HT, HD, HL, TR, TI, TE, LI, NKIND };
static const char* kname[NKIND] = { "hashtable", "hashdyn", "hashlin", "trie", "inplace", "tree", "list" };
static int K, mode, reduced, chain; static uint64_t N, B0;
static union { tommy_node* n; tommy_trie_inplace_node* t; char* raw; } A;
static uint8_t* seen;
static void* C;
static tommy_allocator AL;
#define NODESIZE (K == TI ? sizeof(tommy_trie_inplace_node) : sizeof(tommy_node))
static void* node_of(uint64_t i) { return A.raw + i * NODESIZE; }
static uint64_t id_of(const void* d)
{
	uintptr_t a = (uintptr_t)d, b = (uintptr_t)A.raw;
	if (a < b || a >= b + N * NODESIZE || (a - b) % NODESIZE) return ~(uint64_t)0;
	return (a - b) / NODESIZE;
}
static uint64_t key_of(uint64_t i)
{
	/* all in the same bucket */
	if (chain) return (mode & 1 ? i / 2 : i) << 32 >> (sizeof(tommy_hash_t) == 8 ? 0 : 18);
	switch (mode) {
	case 0: return i;
	case 1: return s_inthash_u32((tommy_uint32_t)i);
	case 2: return i / 2;
	default: return K == TR || K == TI ? s_inthash_u32((tommy_uint32_t)(i / 2)) : sizeof(tommy_hash_t) == 8 ? s_inthash_u64(i / 2) : s_inthash_u32((tommy_uint32_t)(i / 2));
	}
}
static int contained(uint64_t i) { return !reduced || i % 3 == 0; }
/* the first inserted of the objects with the same key as i, ~0 if none */
static uint64_t first_of(uint64_t i)
{
	if (chain ? mode & 1 : mode >= 2) { i &= ~(uint64_t)1; if (i < N && contained(i)) return i; ++i; }
	return i < N && contained(i) ? i : ~(uint64_t)0;
}
static struct { int on; uint64_t key, id; int any; } G;
static int cb_search(const void* arg, const void* obj)
{
	uint64_t i = id_of(obj);
	CHECK(O_CB, G.on && arg == &G, "callback-wrong-argument", "the comparison function got %p", arg);
	CHECK(O_CB | O_MEM, i < N && contained(i) && key_of(i) == G.key, "callback-foreign-object", "the comparison function got an object not contained or with another hash");
	return !(G.any || i == G.id);
}
static uint64_t ncmp;
static int cb_cmp(const void* a, const void* b)
{
	uint64_t x = key_of(id_of(a)), y = key_of(id_of(b));
	++ncmp;
	return x < y ? -1 : x > y;
}
static uint64_t each_n, each_last; static int each_sorted;
static void each(void* d)
{
	uint64_t i = id_of(d);
	CHECK(O_EACH, i < N && contained(i), "foreach-foreign-object", "foreach visited an object not contained");
	CHECK(O_EACH, !seen[i], "foreach-visited-twice", "foreach visited object %llu twice", (unsigned long long)i);
	seen[i] = 1;
	if (each_sorted && each_n) CHECK(O_EACH | O_MEM, key_of(each_last) < key_of(i), "foreach-order", "foreach visited key %llu after %llu", (unsigned long long)key_of(i), (unsigned long long)key_of(each_last));
	each_last = i;
	++each_n;
}
static void each_arg(void* arg, void* d) { CHECK(O_EACH | O_CB, arg == &each_n, "foreach-wrong-argument", "wrong argument"); each(d); }
#define SW(ht, hd, hl, tr, ti, te) switch (K) { case HT: ht; break; case HD: hd; break; case HL: hl; break; case TR: tr; break; case TI: ti; break; default: te; break; }
static void insert(uint64_t i)
{
	void* n = node_of(i); uint64_t k = key_of(i);
	void* r = n;
	mon_op("insert", i, k, 0);
	SW(s_hashtable_insert((tommy_hashtable*)C, (tommy_node*)n, n, (tommy_hash_t)k), s_hashdyn_insert((tommy_hashdyn*)C, (tommy_node*)n, n, (tommy_hash_t)k), s_hashlin_insert((tommy_hashlin*)C, (tommy_node*)n, n, (tommy_hash_t)k),
		s_trie_insert((tommy_trie*)C, (tommy_node*)n, n, (tommy_key_t)k), s_trie_inplace_insert((tommy_trie_inplace*)C, (tommy_trie_inplace_node*)n, n, (tommy_key_t)k), r = s_tree_insert((tommy_tree*)C, (tommy_node*)n, n))
	CHECK(O_MEM, r == n, "insert-result", "the tree returned %p for a new element", r);
}
static void* search(uint64_t key, uint64_t id)
{
	void* r = 0;
	G.on = 1; G.key = key; G.id = id; G.any = id == ~(uint64_t)0;
	mon_op("search", id, key, 0);
	SW(r = s_hashtable_search((tommy_hashtable*)C, cb_search, &G, (tommy_hash_t)key), r = s_hashdyn_search((tommy_hashdyn*)C, cb_search, &G, (tommy_hash_t)key), r = s_hashlin_search((tommy_hashlin*)C, cb_search, &G, (tommy_hash_t)key),
		r = s_trie_search((tommy_trie*)C, (tommy_key_t)key), r = s_trie_inplace_search((tommy_trie_inplace*)C, (tommy_key_t)key), r = s_tree_search((tommy_tree*)C, node_of(id)))
	G.on = 0;
	return r;
}
static void* removal(uint64_t key, uint64_t id)
{
	void* r = 0;
	G.on = 1; G.key = key; G.id = id; G.any = 0;
	mon_op("remove", id, key, 0);
	SW(r = s_hashtable_remove((tommy_hashtable*)C, cb_search, &G, (tommy_hash_t)key), r = s_hashdyn_remove((tommy_hashdyn*)C, cb_search, &G, (tommy_hash_t)key), r = s_hashlin_remove((tommy_hashlin*)C, cb_search, &G, (tommy_hash_t)key),
		r = s_trie_remove((tommy_trie*)C, (tommy_key_t)key), r = s_trie_inplace_remove((tommy_trie_inplace*)C, (tommy_key_t)key), r = s_tree_remove((tommy_tree*)C, node_of(id)))
	G.on = 0;
	return r;
}
static void* remove_existing(uint64_t id)
{
	void* r = 0; void* n = node_of(id);
	mon_op("remove_existing", id, 0, 0);
	SW(r = s_hashtable_remove_existing((tommy_hashtable*)C, (tommy_node*)n), r = s_hashdyn_remove_existing((tommy_hashdyn*)C, (tommy_node*)n), r = s_hashlin_remove_existing((tommy_hashlin*)C, (tommy_node*)n),
		r = s_trie_remove_existing((tommy_trie*)C, (tommy_node*)n), r = s_trie_inplace_remove_existing((tommy_trie_inplace*)C, (tommy_trie_inplace_node*)n), r = s_tree_remove_existing((tommy_tree*)C, (tommy_node*)n))
	return r;
}
static void totals(uint64_t n)
{
	uint64_t c = 0, u = 0, want = n * NODESIZE, b = H.live_bytes - B0;
	SW(c = s_hashtable_count((tommy_hashtable*)C), c = s_hashdyn_count((tommy_hashdyn*)C), c = s_hashlin_count((tommy_hashlin*)C), c = s_trie_count((tommy_trie*)C), c = s_trie_inplace_count((tommy_trie_inplace*)C), c = s_tree_count((tommy_tree*)C))
	SW(u = s_hashtable_memory_usage((tommy_hashtable*)C), u = s_hashdyn_memory_usage((tommy_hashdyn*)C), u = s_hashlin_memory_usage((tommy_hashlin*)C), u = s_trie_memory_usage((tommy_trie*)C), u = s_trie_inplace_memory_usage((tommy_trie_inplace*)C), u = s_tree_memory_usage((tommy_tree*)C))
	CHECK(O_MEM, c == n, "wrong-count", "%s reports %llu objects instead of %llu", kname[K], (unsigned long long)c, (unsigned long long)n);
	if (K <= HL) want += b;
	if (K == TR) want += s_allocator_memory_usage(&AL);
	CHECK(O_USE, u == want, "wrong-memory-usage", "%s of %llu objects reports %llu bytes, it uses %llu", kname[K], (unsigned long long)n, (unsigned long long)u, (unsigned long long)want);
	if (K == HD || K == HL) {
		b /= sizeof(void*);
		CHECK(O_SIZE, b <= 64 || 16 * (n + 2) >= b, "oversized", "%s has %llu buckets for %llu objects", kname[K], (unsigned long long)b, (unsigned long long)n);
	}
	mon_res(n);
}
static void sample(uint64_t num)
{
	while (num--) {
		uint64_t i = rndn(N), f; void* r;
		/* any object of that key: the first inserted */
		f = first_of(i);
		if (K == TE) { r = search(key_of(i), i); CHECK(O_MEM, r == (contained(i) ? node_of(i) : 0), "lost-object", "search of element %llu returned %p", (unsigned long long)i, r); continue; }
		r = search(key_of(i), ~(uint64_t)0);
		if (f == ~(uint64_t)0) CHECK(O_MEM, r == 0, "phantom-object", "search of removed object %llu returned %p", (unsigned long long)i, r);
		else {
			uint64_t g = r ? id_of(r) : N;
			CHECK(O_MEM, r && g < N && contained(g) && key_of(g) == key_of(i), "lost-object", "search of the key of object %llu returned %p", (unsigned long long)i, r);
			CHECK(O_ORD, g == f, "not-first-inserted", "search returned object %llu, the first inserted with that key is %llu", (unsigned long long)g, (unsigned long long)f);
		}
		/* this very object */
		if (K <= HL) { r = search(key_of(i), i); CHECK(O_MEM, r == (contained(i) ? node_of(i) : 0), "lost-object", "search of object %llu returned %p", (unsigned long long)i, r); }
		/* a key never inserted */
		i = N + 2 + rndn(1000000);
		r = search(key_of(i), ~(uint64_t)0);
		CHECK(O_MEM, r == 0, "phantom-object", "search of a key never inserted returned %p", r);
	}
	mon_res(N);
}
static void foreach(uint64_t n)
{
	int arg = (int)(rnd() & 1);
	if (K == TR || K == TI) return;
	memset(seen, 0, N); each_n = 0; each_sorted = K == TE;
	mon_op("foreach", n, 0, 0);
	SW(if (arg) s_hashtable_foreach_arg((tommy_hashtable*)C, each_arg, &each_n); else s_hashtable_foreach((tommy_hashtable*)C, each),
		if (arg) s_hashdyn_foreach_arg((tommy_hashdyn*)C, each_arg, &each_n); else s_hashdyn_foreach((tommy_hashdyn*)C, each),
		if (arg) s_hashlin_foreach_arg((tommy_hashlin*)C, each_arg, &each_n); else s_hashlin_foreach((tommy_hashlin*)C, each), , ,
		if (arg) s_tree_foreach_arg((tommy_tree*)C, each_arg, &each_n); else s_tree_foreach((tommy_tree*)C, each))
	CHECK(O_EACH | (K == TE ? O_MEM : 0), each_n == n, "foreach-missed", "foreach visited %llu of %llu objects", (unsigned long long)each_n, (unsigned long long)n);
	mon_res(n);
}
/* ------------------------------------------------------------------ lists */
static uint64_t walk(tommy_list* l, int sorted, uint64_t n)
{
	tommy_node* i = s_list_head(l); tommy_node* p = s_list_tail(l); uint64_t c = 0, last = 0, id;
	for (; i; p = i, i = i->next, ++c) {
		id = id_of(i->data);
		CHECK(O_MEM | (sorted ? O_ORD : 0), id < N && node_of(id) == i && c < n, "foreign-node", "the list has a node that is not of its objects");
		CHECK(O_MEM | (sorted ? O_ORD : 0), i->prev == p, "prev-link", "the prev link of object %llu at position %llu is wrong", (unsigned long long)id, (unsigned long long)c);
		if (sorted && c) {
			uint64_t x = key_of(last), y = key_of(id);
			CHECK(O_ORD, x <= y, "not-sorted", "key %llu after %llu at position %llu", (unsigned long long)y, (unsigned long long)x, (unsigned long long)c);
			CHECK(O_ORD, x != y || last < id, "not-stable", "objects %llu and %llu with equal keys were exchanged", (unsigned long long)last, (unsigned long long)id);
		}
		if (!sorted && c) CHECK(O_MEM, last < id, "list-order", "object %llu after %llu", (unsigned long long)id, (unsigned long long)last);
		last = id;
	}
	CHECK(O_MEM | (sorted ? O_ORD : 0), c == n && p == s_list_tail(l), "wrong-length", "the list has %llu objects instead of %llu", (unsigned long long)c, (unsigned long long)n);
	return c;
}
static int list_case(void)
{
	tommy_list a, b; uint64_t i, h = N / 2 + rndn(N / 4), n; double lim;
	s_list_init(&a); s_list_init(&b);
	mon_heap_forbid = (mon_mask & O_HEAP) != 0;
	for (i = h; i-- > 0;) { mon_op("insert_head", i, 0, 0); s_list_insert_head(&a, (tommy_node*)node_of(i), node_of(i)); }
	for (i = h; i < N; ++i) { mon_op("insert_tail", i, 0, 0); s_list_insert_tail(&b, (tommy_node*)node_of(i), node_of(i)); }
	s_list_concat(&a, &b);
	walk(&a, 0, N);
	ncmp = 0;
	mon_op("sort", N, (uint64_t)mode, 0);
	s_list_sort(&a, cb_cmp);
	mon_res(N);
	for (lim = 0, i = N; i > 1; i /= 2) ++lim;
	lim = (lim + 1) * (double)N + 2.0 * (double)N;
	CHECK(O_WORK, (double)ncmp <= lim, "too-many-comparisons", "sorting %llu objects took %llu comparisons", (unsigned long long)N, (unsigned long long)ncmp);
	mon_max("max_sort_length", N);
	walk(&a, 1, N);
	for (i = 0; i < N; ++i) if (i % 3) { void* r; mon_op("remove_existing", i, 0, 0); r = s_list_remove_existing(&a, (tommy_node*)node_of(i)); CHECK(O_MEM, r == node_of(i), "remove-result", "remove_existing returned %p", r); }
	reduced = 1; n = (N + 2) / 3;
	walk(&a, 1, n);
	mon_op("count", n, 0, 0);
	CHECK(O_MEM, s_list_count(&a) == n, "wrong-count", "the list reports %llu objects instead of %llu", (unsigned long long)s_list_count(&a), (unsigned long long)n);
	memset(seen, 0, N); each_n = 0; each_sorted = 0;
	s_list_foreach(&a, each);
	CHECK(O_EACH, each_n == n, "foreach-missed", "foreach visited %llu of %llu objects", (unsigned long long)each_n, (unsigned long long)n);
	mon_heap_forbid = 0;
	return 1;
}
static int run_case(long index)
{
	int ks[NKIND], nk = 0, k; uint64_t i, n; void* r;
	for (k = 0; k < NKIND; ++k) { char t[32]; snprintf(t, sizeof(t), "+%s", kname[k]); if (strstr(mon_variant, t)) ks[nk++] = k; }
	REQUIRE(nk);
	K = ks[index % nk];
	mode = (int)((index / nk + (long)(mon_seed % 4)) % 4);
	if (K == TE && mode >= 2) mode -= 2;
	if (strstr(mon_variant, "seq") && mon_scale <= 1) mode = 0;
	if (strstr(mon_variant, "pairs")) mode = 2 + (mode & 1);
	N = (uint64_t)(((uint64_t)1 << 24) * mon_scale) + 1000 + rndn(500000);
	chain = strstr(mon_variant, "chain") != 0;
	if (chain) { N = 66000 + rndn(8000); mode &= 1; }
	reduced = 0;
	A.raw = (char*)malloc(N * NODESIZE); seen = (uint8_t*)malloc(N);
	REQUIRE(A.raw && seen);
	mon_garbage(A.raw, N * NODESIZE < 4096 ? N * NODESIZE : 4096);
	mon_heap_fill = (unsigned)rndn(4);
	if (K == LI) { list_case(); goto end; }
	C = malloc(K == TR ? sizeof(tommy_trie) : K == TI ? sizeof(tommy_trie_inplace) : K == HL ? sizeof(tommy_hashlin) : 1024); REQUIRE(C);
	B0 = H.live_bytes;
	SW(s_hashtable_init((tommy_hashtable*)C, chain ? (tommy_size_t)rndn(40) : (tommy_size_t)(N - 500)), s_hashdyn_init((tommy_hashdyn*)C), s_hashlin_init((tommy_hashlin*)C),
		(s_allocator_init(&AL, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE), s_trie_init((tommy_trie*)C, &AL)), s_trie_inplace_init((tommy_trie_inplace*)C), s_tree_init((tommy_tree*)C, cb_cmp))
	if (K == HT && !chain) CHECK(O_SIZE, (H.live_bytes - B0) / sizeof(void*) >= N - 500 && (H.live_bytes - B0) / sizeof(void*) < 2 * (N - 500), "hashtable-buckets", "a fixed table of at least %llu buckets has %llu", (unsigned long long)(N - 500), (unsigned long long)((H.live_bytes - B0) / sizeof(void*)));
	for (i = 0; i < N; ++i) insert(i);
	totals(N);
	sample(chain ? 300 : 100000);
	foreach(N);
	for (i = 0; i < N; ++i) {
		if (i % 3 == 0) continue;
		/* a key alone removes the first inserted: with equal keys the node is given */
		if (i % 3 == 1 && !(mode >= 2 && (K == TR || K == TI))) r = removal(key_of(i), i); else r = remove_existing(i);
		if (r != node_of(i)) mon_report(O_MEM, "remove-result", "removal of object %llu from %s returned %p instead of %p", (unsigned long long)i, kname[K], r, node_of(i));
	}
	reduced = 1; n = (N + 2) / 3;
	totals(n);
	sample(chain ? 300 : 100000);
	foreach(n);
	/* sometimes released while it contains the objects */
	if (!(mon_scale < 1 && rndn(2))) {
	for (i = N; i-- > 0;) if (contained(i)) {
		r = remove_existing(i);
		if (r != node_of(i)) mon_report(O_MEM, "remove-result", "removal of object %llu from %s returned %p instead of %p", (unsigned long long)i, kname[K], r, node_of(i));
	}
	totals(0);
	}
	mon_op("done", 0, 0, 0);
	SW(s_hashtable_done((tommy_hashtable*)C), s_hashdyn_done((tommy_hashdyn*)C), s_hashlin_done((tommy_hashlin*)C), s_allocator_done(&AL), , )
	mon_res(0);
	CHECK(O_HEAP, H.live_bytes == B0, "heap-leak", "%s left %llu bytes after done", kname[K], (unsigned long long)(H.live_bytes - B0));
	free(C);
end:
	mon_max("max_objects", N);
	mon_sample("%s of %llu objects, key mode %d", kname[K], (unsigned long long)N, mode);
	free(A.raw); free(seen);
	mon_heap_reset();
	return 1;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_giant", run_case); }
