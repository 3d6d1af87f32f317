/* Tens of thousands of small containers alive at once, and as many generations of them: each must behave as if it were the only one. */
#include "sut.h"
#include "sut_api.h"

enum { HT, HD, HL, TR, TI, TE, LI, AR, AO, AB, AF, AL, NKIND };
static const char* kname[NKIND] = { "hashtable", "hashdyn", "hashlin", "trie", "inplace", "tree", "list", "array", "arrayof", "arrayblk", "arrayblkof", "allocator" };
#define ANY 0x40000000u /* selected when the whole behaviour is the property */
#define E 4                 /* objects of each container */
#define NODE 128            /* bytes for a node of any kind */
struct slot {
	void* c;                /* the container */
	tommy_allocator* alloc; /* the one of a trie */
	char* node;             /* E nodes, or the blocks of an allocator */
	uint64_t salt;
	uint32_t n, gen;
	uint8_t kind, live, seq[E]; /* objects contained in order of insertion */
};
static struct slot* S; static uint32_t NC;
static uint64_t base_usage[2 * NKIND]; static int have_base[2 * NKIND];
static struct { struct slot* s; int e; uint64_t calls; } G;
static uint64_t nlive, maxlive, ninit;

static size_t csize(int k)
{
	switch (k) {
	case HT: return sizeof(tommy_hashtable); case HD: return sizeof(tommy_hashdyn); case HL: return sizeof(tommy_hashlin); case TR: return sizeof(tommy_trie); case TI: return sizeof(tommy_trie_inplace);
	case TE: return sizeof(tommy_tree); case LI: return sizeof(tommy_list); case AR: return sizeof(tommy_array); case AO: return sizeof(tommy_arrayof); case AB: return sizeof(tommy_arrayblk);
	case AF: return sizeof(tommy_arrayblkof); default: return sizeof(tommy_allocator);
	}
}
static void* node_of(struct slot* s, int e) { return s->node + e * NODE; }
/* few different sets of keys: the containers are often equal */
static uint64_t key_of(struct slot* s, int e) { uint64_t v = mix64(s->salt % 5, (uint64_t)e); return s->kind == TR || s->kind == TI ? (v & 0xffffffffu) : e & 1 ? v : mix64(s->salt % 5, (uint64_t)e + 1) ^ ((uint64_t)1 << 20); }
static int index_of(struct slot* s, const void* obj)
{
	uintptr_t a = (uintptr_t)obj, b = (uintptr_t)s->node;
	return a < b || a >= b + E * NODE || (a - b) % NODE ? -1 : (int)((a - b) / NODE);
}
static int contained(struct slot* s, int e) { uint32_t i; for (i = 0; i < s->n; ++i) if (s->seq[i] == e) return 1; return 0; }
static int cb_search(const void* arg, const void* obj)
{
	int e = index_of(G.s, obj); ++G.calls;
	CHECK(ANY | O_MEM | O_CB, arg == &G && e >= 0 && contained(G.s, e), "foreign-object", "the comparison function got an object of another container or none");
	return e != G.e;
}
static int cb_cmp(const void* a, const void* b)
{
	int x = index_of(G.s, a), y = index_of(G.s, b); ++G.calls;
	CHECK(ANY | O_MEM | O_CB, x >= 0 && y >= 0, "foreign-object", "the comparison function got an object of another container");
	return x - y;
}
static uint32_t each_n; static uint8_t each_seen[E];
static void each(void* obj)
{
	int e = index_of(G.s, obj);
	CHECK(ANY | O_EACH, e >= 0 && contained(G.s, e) && !each_seen[e], "foreach-object", "foreach visited an object of another container, one not contained or one twice");
	each_seen[e] = 1; ++each_n;
}
static void each_arg(void* arg, void* obj) { CHECK(ANY | O_EACH, arg == &G, "foreach-argument", "foreach gave another argument"); each(obj); }
#define MAPS(ht, hd, hl, tr, ti, te, li) switch (s->kind) { case HT: ht; break; case HD: hd; break; case HL: hl; break; case TR: tr; break; case TI: ti; break; case TE: te; break; case LI: li; break; default: break; }
#define c_(t) ((tommy_##t*)s->c)
static uint64_t value_of(struct slot* s, uint64_t i) { return mix64(s->salt * 131 + s->gen, i) | 1; }

static void init(struct slot* s)
{
	mon_op("init", s->kind, (uint64_t)(s - S), 0);
	mon_garbage(s->c, csize(s->kind));
	s->n = 0;
	MAPS(s_hashtable_init(c_(hashtable), 16), s_hashdyn_init(c_(hashdyn)), s_hashlin_init(c_(hashlin)), s_trie_init(c_(trie), s->alloc), s_trie_inplace_init(c_(trie_inplace)), s_tree_init(c_(tree), cb_cmp), s_list_init(c_(list)))
	switch (s->kind) {
	case AR: s_array_init(c_(array)); break;
	case AO: s_arrayof_init(c_(arrayof), 8); break;
	case AB: s_arrayblk_init(c_(arrayblk)); break;
	case AF: s_arrayblkof_init(c_(arrayblkof), 8); break;
	case AL: s_allocator_init(c_(allocator), 32, 32); break;
	}
	s->live = 1; ++nlive; ++ninit; if (nlive > maxlive) maxlive = nlive;
}
static uint64_t usage(struct slot* s)
{
	uint64_t u = 0;
	MAPS(u = s_hashtable_memory_usage(c_(hashtable)), u = s_hashdyn_memory_usage(c_(hashdyn)), u = s_hashlin_memory_usage(c_(hashlin)), u = s->n * sizeof(tommy_node), u = s_trie_inplace_memory_usage(c_(trie_inplace)), u = s_tree_memory_usage(c_(tree)), u = s->n * sizeof(tommy_node))
	switch (s->kind) {
	case AR: u = s_array_memory_usage(c_(array)); break;
	case AO: u = s_arrayof_memory_usage(c_(arrayof)); break;
	case AB: u = s_arrayblk_memory_usage(c_(arrayblk)); break;
	case AF: u = s_arrayblkof_memory_usage(c_(arrayblkof)); break;
	case AL: u = s_allocator_memory_usage(c_(allocator)); break;
	}
	return u;
}
static void insert(struct slot* s, int e)
{
	void* n = node_of(s, e); void* r = n; uint64_t k = key_of(s, e);
	mon_op("insert", s->kind, (uint64_t)(s - S), (uint64_t)e);
	G.s = s;
	MAPS(s_hashtable_insert(c_(hashtable), (tommy_node*)n, n, (tommy_hash_t)k), s_hashdyn_insert(c_(hashdyn), (tommy_node*)n, n, (tommy_hash_t)k), s_hashlin_insert(c_(hashlin), (tommy_node*)n, n, (tommy_hash_t)k),
		s_trie_insert(c_(trie), (tommy_node*)n, n, (tommy_key_t)k), s_trie_inplace_insert(c_(trie_inplace), (tommy_trie_inplace_node*)n, n, (tommy_key_t)k), r = s_tree_insert(c_(tree), (tommy_node*)n, n), s_list_insert_tail(c_(list), (tommy_node*)n, n))
	CHECK(ANY | O_MEM, r == n, "insert-result", "insert in %s number %u returned another object", kname[s->kind], (unsigned)(s - S));
	s->seq[s->n++] = (uint8_t)e;
}
static void removal(struct slot* s, int e, int existing)
{
	void* n = node_of(s, e); void* r = 0; uint64_t k = key_of(s, e); uint32_t i;
	mon_op(existing ? "remove_existing" : "remove", s->kind, (uint64_t)(s - S), (uint64_t)e);
	G.s = s; G.e = e;
	if (existing) {
		MAPS(r = s_hashtable_remove_existing(c_(hashtable), (tommy_node*)n), r = s_hashdyn_remove_existing(c_(hashdyn), (tommy_node*)n), r = s_hashlin_remove_existing(c_(hashlin), (tommy_node*)n), r = s_trie_remove_existing(c_(trie), (tommy_node*)n),
			r = s_trie_inplace_remove_existing(c_(trie_inplace), (tommy_trie_inplace_node*)n), r = s_tree_remove_existing(c_(tree), (tommy_node*)n), r = s_list_remove_existing(c_(list), (tommy_node*)n))
	} else {
		MAPS(r = s_hashtable_remove(c_(hashtable), cb_search, &G, (tommy_hash_t)k), r = s_hashdyn_remove(c_(hashdyn), cb_search, &G, (tommy_hash_t)k), r = s_hashlin_remove(c_(hashlin), cb_search, &G, (tommy_hash_t)k), r = s_trie_remove(c_(trie), (tommy_key_t)k),
			r = s_trie_inplace_remove(c_(trie_inplace), (tommy_key_t)k), r = s_tree_remove(c_(tree), n), r = s_list_remove_existing(c_(list), (tommy_node*)n))
	}
	CHECK(ANY | O_MEM, r == n, "remove-result", "removal from %s number %u of %u alive returned %p instead of the object", kname[s->kind], (unsigned)(s - S), (unsigned)nlive, r);
	for (i = 0; i < s->n && s->seq[i] != e; ++i) ;
	for (; i + 1 < s->n; ++i) s->seq[i] = s->seq[i + 1];
	--s->n;
}
static void verify_map(struct slot* s)
{
	int e; void* r = 0; uint64_t c = s->n, u; uint32_t i = 0;
	G.s = s;
	mon_op("verify", s->kind, (uint64_t)(s - S), s->n);
	if (s->kind != LI) for (e = 0; e < E; ++e) {
		uint64_t k = key_of(s, e);
		G.e = e;
		MAPS(r = s_hashtable_search(c_(hashtable), cb_search, &G, (tommy_hash_t)k), r = s_hashdyn_search(c_(hashdyn), cb_search, &G, (tommy_hash_t)k), r = s_hashlin_search(c_(hashlin), cb_search, &G, (tommy_hash_t)k), r = s_trie_search(c_(trie), (tommy_key_t)k),
			r = s_trie_inplace_search(c_(trie_inplace), (tommy_key_t)k), r = s_tree_search(c_(tree), node_of(s, e)), )
		CHECK(ANY | O_MEM, r == (contained(s, e) ? node_of(s, e) : 0), "search-result", "search in %s number %u of %u alive returned %p", kname[s->kind], (unsigned)(s - S), (unsigned)nlive, r);
	} else {
		tommy_node* p;
		for (p = s_list_head(c_(list)); p && i < s->n; p = p->next, ++i) CHECK(ANY | O_MEM, p == node_of(s, s->seq[i]), "list-order", "list number %u has another object at position %u", (unsigned)(s - S), i);
		CHECK(ANY | O_MEM, !p && i == s->n && s_list_tail(c_(list)) == (s->n ? node_of(s, s->seq[s->n - 1]) : 0), "list-length", "list number %u has another length", (unsigned)(s - S));
	}
	MAPS(c = s_hashtable_count(c_(hashtable)), c = s_hashdyn_count(c_(hashdyn)), c = s_hashlin_count(c_(hashlin)), c = s_trie_count(c_(trie)), c = s_trie_inplace_count(c_(trie_inplace)), c = s_tree_count(c_(tree)), c = s_list_count(c_(list)))
	CHECK(ANY | O_MEM, c == s->n, "wrong-count", "%s number %u reports %llu objects instead of %u", kname[s->kind], (unsigned)(s - S), (unsigned long long)c, s->n);
	memset(each_seen, 0, sizeof(each_seen)); each_n = 0;
	if (s->salt & 16) { MAPS(s_hashtable_foreach(c_(hashtable), each), s_hashdyn_foreach(c_(hashdyn), each), s_hashlin_foreach(c_(hashlin), each), each_n = s->n, each_n = s->n, s_tree_foreach(c_(tree), each), s_list_foreach(c_(list), each)) }
	else { MAPS(s_hashtable_foreach_arg(c_(hashtable), each_arg, &G), s_hashdyn_foreach_arg(c_(hashdyn), each_arg, &G), s_hashlin_foreach_arg(c_(hashlin), each_arg, &G), each_n = s->n, each_n = s->n, s_tree_foreach_arg(c_(tree), each_arg, &G), s_list_foreach_arg(c_(list), each_arg, &G)) }
	CHECK(ANY | O_EACH, each_n == s->n, "foreach-missed", "foreach visited %u of the %u objects of %s number %u", each_n, s->n, kname[s->kind], (unsigned)(s - S));
	/* the same memory as every other container of the kind with as many objects */
	u = usage(s) - s->n * (s->kind == TI ? sizeof(tommy_trie_inplace_node) : sizeof(tommy_node));
	if (!have_base[s->kind]) { have_base[s->kind] = 1; base_usage[s->kind] = u; }
	CHECK(ANY | O_USE, u == base_usage[s->kind], "different-memory-usage", "%s number %u holds %llu bytes, the first one %llu", kname[s->kind], (unsigned)(s - S), (unsigned long long)u, (unsigned long long)base_usage[s->kind]);
}
static void array_put(struct slot* s, uint64_t i)
{
	uint64_t v = value_of(s, i);
	switch (s->kind) {
	case AR: if (i & 1) { s_array_grow(c_(array), i + 1); CHECK(ANY | O_MEM, s_array_get(c_(array), i) == 0, "not-zero", "a new element of array number %u is not 0", (unsigned)(s - S)); s_array_set(c_(array), i, (void*)(uintptr_t)v); } else s_array_insert(c_(array), (void*)(uintptr_t)v); break;
	case AB: if (i & 1) { s_arrayblk_grow(c_(arrayblk), i + 1); CHECK(ANY | O_MEM, s_arrayblk_get(c_(arrayblk), i) == 0, "not-zero", "a new element of array number %u is not 0", (unsigned)(s - S)); s_arrayblk_set(c_(arrayblk), i, (void*)(uintptr_t)v); } else s_arrayblk_insert(c_(arrayblk), (void*)(uintptr_t)v); break;
	case AO: s_arrayof_grow(c_(arrayof), i + 1); CHECK(ANY | O_MEM, *(uint64_t*)s_arrayof_ref(c_(arrayof), i) == 0, "not-zero", "a new element of array number %u is not 0", (unsigned)(s - S)); *(uint64_t*)s_arrayof_ref(c_(arrayof), i) = v; break;
	case AF: s_arrayblkof_grow(c_(arrayblkof), i + 1); CHECK(ANY | O_MEM, *(uint64_t*)s_arrayblkof_ref(c_(arrayblkof), i) == 0, "not-zero", "a new element of array number %u is not 0", (unsigned)(s - S)); *(uint64_t*)s_arrayblkof_ref(c_(arrayblkof), i) = v; break;
	case AL: { uint64_t* p = (uint64_t*)s_allocator_alloc(c_(allocator)); CHECK(ANY | O_ADDR, ((uintptr_t)p & 31) == 0, "misaligned", "block of allocator number %u misaligned", (unsigned)(s - S)); p[0] = v; p[1] = (uintptr_t)p; p[2] = ~v; p[3] = v; ((uint64_t**)s->node)[i] = p; break; }
	}
}
#define ARRMAX 80
static void verify_array(struct slot* s)
{
	uint64_t i, n = 0, u;
	mon_op("verify", s->kind, (uint64_t)(s - S), s->n);
	for (i = 0; i < s->n; ++i) {
		uint64_t v = value_of(s, i), w = 0; uint64_t* p;
		switch (s->kind) {
		case AR: w = (uintptr_t)s_array_get(c_(array), i); v = (uintptr_t)v; break;
		case AB: w = (uintptr_t)s_arrayblk_get(c_(arrayblk), i); v = (uintptr_t)v; break;
		case AO: w = *(uint64_t*)s_arrayof_ref(c_(arrayof), i); break;
		case AF: w = *(uint64_t*)s_arrayblkof_ref(c_(arrayblkof), i); break;
		case AL: p = ((uint64_t**)s->node)[i]; w = p[0]; if (p[1] != (uintptr_t)p || p[2] != ~v || p[3] != v) w = ~v; break;
		}
		CHECK(ANY | O_MEM, w == v, "element-changed", "element %llu of %s number %u of %u alive changed", (unsigned long long)i, kname[s->kind], (unsigned)(s - S), (unsigned)nlive);
	}
	switch (s->kind) { case AR: n = s_array_size(c_(array)); break; case AB: n = s_arrayblk_size(c_(arrayblk)); break; case AO: n = s_arrayof_size(c_(arrayof)); break; case AF: n = s_arrayblkof_size(c_(arrayblkof)); break; case AL: n = s->n; break; }
	CHECK(ANY | O_MEM, n == s->n, "wrong-size", "%s number %u has size %llu instead of %u", kname[s->kind], (unsigned)(s - S), (unsigned long long)n, s->n);
	u = usage(s);
	if (s->kind == AL) CHECK(ANY | O_USE, u == 32 * (uint64_t)s->n, "different-memory-usage", "allocator number %u reports %llu bytes for %u blocks", (unsigned)(s - S), (unsigned long long)u, s->n);
	else if (s->n == 0 || s->n > 64) {
		int k = s->kind + (s->n ? NKIND : 0);
		if (!have_base[k]) { have_base[k] = 1; base_usage[k] = u; }
		CHECK(ANY | O_USE, u == base_usage[k], "different-memory-usage", "%s number %u holds %llu bytes, the first one of that size %llu", kname[s->kind], (unsigned)(s - S), (unsigned long long)u, (unsigned long long)base_usage[k]);
	}
}
static void verify(struct slot* s) { if (s->kind <= LI) verify_map(s); else verify_array(s); }
static void act(struct slot* s)
{
	unsigned i, n;
	if (s->kind <= LI) {
		n = 1 + (unsigned)rndn(4);
		for (i = 0; i < n; ++i) { int e = (int)rndn(E); if (contained(s, e)) removal(s, e, (int)rndn(2)); else insert(s, e); }
		if (s->kind == LI && chance(20)) { uint32_t x, y; G.s = s; mon_op("sort", s->kind, (uint64_t)(s - S), s->n); s_list_sort(c_(list), cb_cmp);
			for (x = 1; x < s->n; ++x) for (y = x; y && s->seq[y - 1] > s->seq[y]; --y) { uint8_t t = s->seq[y]; s->seq[y] = s->seq[y - 1]; s->seq[y - 1] = t; } }
	} else {
		n = chance(5) ? ARRMAX : 1 + (unsigned)rndn(3);
		if (s->kind == AL && s->n && chance(40)) { mon_op("free", s->kind, (uint64_t)(s - S), 0); s_allocator_free(c_(allocator), ((void**)s->node)[--s->n]); n = 0; }
		mon_op("grow", s->kind, (uint64_t)(s - S), s->n + n);
		for (i = 0; i < n && s->n < ARRMAX; ++i) { array_put(s, s->n); ++s->n; }
	}
}
static void done(struct slot* s)
{
	mon_op("done", s->kind, (uint64_t)(s - S), s->n);
	if (s->kind == TR || s->kind == TI) while (s->n) removal(s, s->seq[0], 0); /* gives the inner nodes back to the shared allocator */
	MAPS(s_hashtable_done(c_(hashtable)), s_hashdyn_done(c_(hashdyn)), s_hashlin_done(c_(hashlin)), , , , )
	switch (s->kind) { case AR: s_array_done(c_(array)); break; case AO: s_arrayof_done(c_(arrayof)); break; case AB: s_arrayblk_done(c_(arrayblk)); break; case AF: s_arrayblkof_done(c_(arrayblkof)); break; case AL: s_allocator_done(c_(allocator)); break; }
	s->live = 0; --nlive; ++s->gen; s->n = 0;
}
static int run_case(long index)
{
	int K, k, ks[NKIND + 1], nk = 0; uint32_t c, gens, NA; uint64_t limit; tommy_allocator* al; size_t nb;
	for (k = 0; k < NKIND; ++k) { char t[32]; snprintf(t, sizeof(t), "+%s ", kname[k]); if (strstr(mon_variant, t) || !strchr(mon_variant, '+')) ks[nk++] = k; }
	if (nk == NKIND) ks[nk++] = NKIND;
	K = ks[index % nk];
	NC = (uint32_t)((K == AB || K == AF ? 1500 : K == AL || K == NKIND ? 20000 : 66000) * mon_scale);
	gens = (uint32_t)((mon_thorough ? 1200000 : 70000) * mon_scale);
	NC += (uint32_t)rndn(NC / 16); gens += (uint32_t)rndn(gens / 16);
	limit = H.live;
	S = (struct slot*)calloc(NC, sizeof(*S)); REQUIRE(S);
	memset(have_base, 0, sizeof(have_base)); nlive = maxlive = ninit = 0;
	mon_heap_fill = (unsigned)rndn(4);
	NA = NC / 64 + 1;
	al = (tommy_allocator*)calloc(NA, sizeof(*al)); REQUIRE(al);
	for (c = 0; c < NA; ++c) s_allocator_init(&al[c], TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE);
	for (c = 0; c < NC; ++c) {
		struct slot* s = &S[c];
		s->kind = (uint8_t)(K < NKIND ? K : c % NKIND == AB || c % NKIND == AF ? (c % 64 == AB || c % 64 == AF ? c % NKIND : AR) : c % NKIND);
		s->salt = rnd(); s->alloc = &al[c % NA];
		nb = s->kind <= LI ? E * NODE : s->kind == AL ? ARRMAX * sizeof(void*) : 8;
		s->c = malloc(csize(s->kind)); s->node = (char*)aligned_alloc(64, (nb + 63) & ~(size_t)63); REQUIRE(s->c && s->node && sizeof(tommy_trie_inplace_node) <= NODE);
		mon_garbage(s->node, nb);
		init(s);
		verify(s);
		act(s);
	}
	for (c = 0; c < NC; ++c) { verify(&S[c]); if (c % 3 == 0) { act(&S[c]); verify(&S[c]); } }
	mon_res(nlive);
	while (gens--) {
		struct slot* s = &S[rndn(NC)]; struct slot* t = &S[rndn(NC)];
		done(s); init(s); act(s); verify(s);
		if (chance(20)) act(t);
		verify(t);
	}
	for (c = 0; c < NC; ++c) { verify(&S[c]); done(&S[c]); free(S[c].c); free(S[c].node); }
	for (c = 0; c < NA; ++c) { CHECK(ANY | O_ECON, s_allocator_memory_usage(&al[c]) == 0, "inner-nodes-kept", "inner nodes of tries emptied are kept"); s_allocator_done(&al[c]); }
	CHECK(ANY | O_HEAP, H.live == limit, "heap-leak", "%llu blocks are left after done", (unsigned long long)(H.live - limit));
	mon_res(H.live);
	mon_max("containers_alive", maxlive); mon_max("containers_initialized", ninit);
	mon_sample("%u containers alive (%s), %llu initialized", (unsigned)maxlive, K < NKIND ? kname[K] : "all kinds", (unsigned long long)ninit);
	free(S); free(al);
	mon_heap_reset();
	return 1;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_many", run_case); }
