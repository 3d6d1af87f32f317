/* One small container, and tens of millions of operations on it: it must behave at the end as it did at the beginning. */
#include "sut.h"
#include "sut_api.h"

enum { HT, HD, HL, TR, TI, TE, LI, AL, NKIND };
static const char* kname[NKIND] = { "hashtable", "hashdyn", "hashlin", "trie", "inplace", "tree", "list", "allocator" };
#define ANY 0x40000000u
#define MAXM 160
#define NODE 128
static int K, M, D; /* kind, objects, distinct keys */
static char* A; static void* C; static tommy_allocator INNER; static tommy_list L2;
static uint64_t key[MAXM]; static int cls[MAXM];
static uint8_t in[MAXM]; static int n;
static uint8_t seq[MAXM][MAXM]; static int cn[MAXM]; /* objects of each class in order of insertion; for the lists seq[0] and seq[1] are the lists */
static void* blk[MAXM]; static uint64_t tag[MAXM]; static size_t bsize; static int peak;
static uint64_t B0, opno, ncmp, nresize, nsort;
static struct { int e, c; } G;
#define c_(t) ((tommy_##t*)C)
static void* node_of(int e) { return A + e * NODE; }
static int id_of(const void* d)
{
	uintptr_t a = (uintptr_t)d, b = (uintptr_t)A;
	return a < b || a >= b + (uintptr_t)M * NODE || (a - b) % NODE ? -1 : (int)((a - b) / NODE);
}
#define HASHES(ht, hd, hl) switch (K) { case HT: ht; break; case HD: hd; break; default: hl; break; }
#define MAPS(ht, hd, hl, tr, ti, te) switch (K) { case HT: ht; break; case HD: hd; break; case HL: hl; break; case TR: tr; break; case TI: ti; break; default: te; break; }
static int cb_search(const void* arg, const void* obj)
{
	int e = id_of(obj); ++ncmp;
	CHECK(ANY | O_CB | O_MEM, arg == &G && e >= 0 && in[e] && key[cls[e]] == key[G.c], "foreign-object", "operation %llu: the comparison function got an object not contained or with another hash", (unsigned long long)opno);
	return G.e >= 0 && e != G.e;
}
static int cb_cmp(const void* a, const void* b)
{
	int x = id_of(a), y = id_of(b); ++ncmp;
	CHECK(ANY | O_CB | O_MEM, x >= 0 && y >= 0, "foreign-object", "operation %llu: the comparison function got a foreign object", (unsigned long long)opno);
	return key[cls[x]] < key[cls[y]] ? -1 : key[cls[x]] > key[cls[y]];
}
static int each_n, each_last; static uint8_t each_seen[MAXM];
static void each(void* obj)
{
	int e = id_of(obj);
	CHECK(ANY | O_EACH, e >= 0 && in[e] && !each_seen[e], "foreach-object", "operation %llu: foreach visited an object not contained or one twice", (unsigned long long)opno);
	if (K == TE) { CHECK(ANY | O_EACH | O_MEM, each_last < 0 || key[cls[each_last]] < key[cls[e]], "foreach-order", "operation %llu: foreach is not in order", (unsigned long long)opno); each_last = e; }
	each_seen[e] = 1; ++each_n;
}
static void each_arg(void* arg, void* obj) { CHECK(ANY | O_EACH, arg == &G, "foreach-argument", "foreach gave another argument"); each(obj); }
/* comparisons allowed in a balanced tree of that many objects */
static uint64_t avl(int count)
{
	uint64_t a = 0, b = 1, t, h = 0;
	while (b <= (uint64_t)count) { t = a + b + 1; a = b; b = t; ++h; }
	return h;
}
/* the objects of a key, in order of insertion */
static void bucket(int c)
{
	int i = 0; uint64_t k = key[c];
	if (K == TI) {
		tommy_trie_inplace_node* p = s_trie_inplace_bucket(c_(trie_inplace), (tommy_key_t)k);
		for (; p; p = p->next, ++i) CHECK(ANY | O_MEM | O_ORD, i < cn[c] && p->data == node_of(seq[c][i]), "bucket-order", "operation %llu: another object at position %d of the bucket of %d", (unsigned long long)opno, i, cn[c]);
	} else {
		tommy_node* p = 0; int guard = 0;
		MAPS(p = s_hashtable_bucket(c_(hashtable), (tommy_hash_t)k), p = s_hashdyn_bucket(c_(hashdyn), (tommy_hash_t)k), p = s_hashlin_bucket(c_(hashlin), (tommy_hash_t)k), p = s_trie_bucket(c_(trie), (tommy_key_t)k), , )
		for (; p; p = p->next) {
			CHECK(ANY | O_MEM | O_ORD, ++guard <= n, "bucket-endless", "operation %llu: the bucket has more objects than the container", (unsigned long long)opno);
			if (K <= HL && p->index != (tommy_hash_t)k) continue;
			CHECK(ANY | O_MEM | O_ORD, i < cn[c] && p->data == node_of(seq[c][i]), "bucket-order", "operation %llu: another object at position %d of the bucket of %d", (unsigned long long)opno, i, cn[c]);
			++i;
		}
	}
	CHECK(ANY | O_MEM | O_ORD, i == cn[c], "bucket-length", "operation %llu: the bucket of a key has %d objects instead of %d", (unsigned long long)opno, i, cn[c]);
}
static void search(int c)
{
	void* r = 0; void* w = cn[c] ? node_of(seq[c][0]) : 0; int e;
	G.c = c; G.e = -1; ncmp = 0;
	mon_op("search", (uint64_t)c, (uint64_t)n, 0);
	for (e = 0; K == TE && cls[e] != c; ++e) ;
	MAPS(r = s_hashtable_search(c_(hashtable), cb_search, &G, (tommy_hash_t)key[c]), r = s_hashdyn_search(c_(hashdyn), cb_search, &G, (tommy_hash_t)key[c]), r = s_hashlin_search(c_(hashlin), cb_search, &G, (tommy_hash_t)key[c]),
		r = s_trie_search(c_(trie), (tommy_key_t)key[c]), r = s_trie_inplace_search(c_(trie_inplace), (tommy_key_t)key[c]), r = s_tree_search(c_(tree), node_of(e)))
	CHECK(ANY | O_MEM | (r && w ? O_ORD : 0), r == w, "search-result", "operation %llu: search returned %p instead of %p", (unsigned long long)opno, r, w);
	if (K == TE) CHECK(O_BAL, ncmp <= avl(n), "too-many-comparisons", "operation %llu: %llu comparisons in a tree of %d objects", (unsigned long long)opno, (unsigned long long)ncmp, n);
}
static void count(void)
{
	uint64_t c = 0;
	MAPS(c = s_hashtable_count(c_(hashtable)), c = s_hashdyn_count(c_(hashdyn)), c = s_hashlin_count(c_(hashlin)), c = s_trie_count(c_(trie)), c = s_trie_inplace_count(c_(trie_inplace)), c = s_tree_count(c_(tree)))
	CHECK(ANY | O_MEM, c == (uint64_t)n, "wrong-count", "operation %llu: %s reports %llu objects instead of %d", (unsigned long long)opno, kname[K], (unsigned long long)c, n);
}
static void insert(int e)
{
	void* p = node_of(e); void* r = p; int c = cls[e]; uint64_t k = key[c], ev = mon_heap_events();
	G.c = c; G.e = -1; ncmp = 0;
	mon_op("insert", (uint64_t)e, k, (uint64_t)n);
	MAPS(s_hashtable_insert(c_(hashtable), (tommy_node*)p, p, (tommy_hash_t)k), s_hashdyn_insert(c_(hashdyn), (tommy_node*)p, p, (tommy_hash_t)k), s_hashlin_insert(c_(hashlin), (tommy_node*)p, p, (tommy_hash_t)k),
		s_trie_insert(c_(trie), (tommy_node*)p, p, (tommy_key_t)k), s_trie_inplace_insert(c_(trie_inplace), (tommy_trie_inplace_node*)p, p, (tommy_key_t)k), r = s_tree_insert(c_(tree), (tommy_node*)p, p))
	if (mon_heap_events() != ev) ++nresize;
	if (K == TE) {
		CHECK(O_BAL, ncmp <= 2 * avl(n), "too-many-comparisons", "operation %llu: %llu comparisons to insert in a tree of %d objects", (unsigned long long)opno, (unsigned long long)ncmp, n);
		CHECK(ANY | O_MEM, r == (cn[c] ? node_of(seq[c][0]) : p), "insert-result", "operation %llu: insert returned another object", (unsigned long long)opno);
		if (cn[c]) return;
	}
	in[e] = 1; seq[c][cn[c]++] = (uint8_t)e; ++n;
	count();
	if (K != TE) bucket(c); else search(c);
}
static void removal(int e, int how)
{
	void* p = node_of(e); void* r = 0; void* w = p; int c = cls[e], i; uint64_t k = key[c], ev = mon_heap_events();
	G.c = c; G.e = e; ncmp = 0;
	mon_op(how ? "remove_existing" : "remove", (uint64_t)e, k, (uint64_t)n);
	if (how) {
		MAPS(r = s_hashtable_remove_existing(c_(hashtable), (tommy_node*)p), r = s_hashdyn_remove_existing(c_(hashdyn), (tommy_node*)p), r = s_hashlin_remove_existing(c_(hashlin), (tommy_node*)p), r = s_trie_remove_existing(c_(trie), (tommy_node*)p),
			r = s_trie_inplace_remove_existing(c_(trie_inplace), (tommy_trie_inplace_node*)p), r = s_tree_remove_existing(c_(tree), (tommy_node*)p))
	} else {
		if (K == TR || K == TI) { e = seq[c][0]; w = node_of(e); }
		MAPS(r = s_hashtable_remove(c_(hashtable), cb_search, &G, (tommy_hash_t)k), r = s_hashdyn_remove(c_(hashdyn), cb_search, &G, (tommy_hash_t)k), r = s_hashlin_remove(c_(hashlin), cb_search, &G, (tommy_hash_t)k), r = s_trie_remove(c_(trie), (tommy_key_t)k),
			r = s_trie_inplace_remove(c_(trie_inplace), (tommy_key_t)k), r = s_tree_remove(c_(tree), p))
	}
	if (mon_heap_events() != ev) ++nresize;
	CHECK(ANY | O_MEM | (r ? O_ORD : 0), r == w, "remove-result", "operation %llu: removal returned %p instead of %p", (unsigned long long)opno, r, w);
	for (i = 0; seq[c][i] != e; ++i) ;
	for (--cn[c]; i < cn[c]; ++i) seq[c][i] = seq[c][i + 1];
	in[e] = 0; --n;
	count();
	if (K != TE) bucket(c); else search(c);
}
static void audit(void)
{
	int i, x; uint64_t u = 0, want = (uint64_t)n * (K == TI ? sizeof(tommy_trie_inplace_node) : sizeof(tommy_node)), b = H.live_bytes - B0, distinct = 0;
	for (i = 0; i < D; ++i) { search(i); if (K != TE) bucket(i); distinct += cn[i] != 0; }
	for (i = 0; K <= HL && i < M; ++i) {
		void* r = 0; G.c = cls[i]; G.e = i;
		HASHES(r = s_hashtable_search(c_(hashtable), cb_search, &G, (tommy_hash_t)key[cls[i]]), r = s_hashdyn_search(c_(hashdyn), cb_search, &G, (tommy_hash_t)key[cls[i]]), r = s_hashlin_search(c_(hashlin), cb_search, &G, (tommy_hash_t)key[cls[i]]))
		CHECK(ANY | O_MEM, r == (in[i] ? node_of(i) : 0), "search-result", "operation %llu: search of object %d returned %p", (unsigned long long)opno, i, r);
	}
	count();
	if (K != TR && K != TI) {
		memset(each_seen, 0, sizeof(each_seen)); each_n = 0; each_last = -1;
		x = (int)(rnd() & 1); mon_op("foreach", (uint64_t)x, (uint64_t)n, 0);
		if (x) { MAPS(s_hashtable_foreach(c_(hashtable), each), s_hashdyn_foreach(c_(hashdyn), each), s_hashlin_foreach(c_(hashlin), each), , , s_tree_foreach(c_(tree), each)) }
		else { MAPS(s_hashtable_foreach_arg(c_(hashtable), each_arg, &G), s_hashdyn_foreach_arg(c_(hashdyn), each_arg, &G), s_hashlin_foreach_arg(c_(hashlin), each_arg, &G), , , s_tree_foreach_arg(c_(tree), each_arg, &G)) }
		CHECK(ANY | O_EACH, each_n == n, "foreach-missed", "operation %llu: foreach visited %d of %d objects", (unsigned long long)opno, each_n, n);
	}
	MAPS(u = s_hashtable_memory_usage(c_(hashtable)), u = s_hashdyn_memory_usage(c_(hashdyn)), u = s_hashlin_memory_usage(c_(hashlin)), u = s_trie_memory_usage(c_(trie)), u = s_trie_inplace_memory_usage(c_(trie_inplace)), u = s_tree_memory_usage(c_(tree)))
	if (K <= HL) want += b;
	if (K == TR) {
		uint64_t a = s_allocator_memory_usage(&INNER) / TOMMY_TRIE_BLOCK_SIZE;
		want += a * TOMMY_TRIE_BLOCK_SIZE;
		CHECK(O_ECON, distinct < 2 ? a == 0 : a <= 14 * distinct, "inner-nodes", "operation %llu: %llu inner nodes for %llu keys", (unsigned long long)opno, (unsigned long long)a, (unsigned long long)distinct);
	}
	CHECK(ANY | O_USE, u == want, "wrong-memory-usage", "operation %llu: %s of %d objects reports %llu bytes, it uses %llu", (unsigned long long)opno, kname[K], n, (unsigned long long)u, (unsigned long long)want);
	if (K == HD || K == HL) { b /= sizeof(void*); CHECK(O_SIZE, b <= 64 || 16 * (uint64_t)(n + 2) >= b, "oversized", "operation %llu: %s has %llu buckets for %d objects", (unsigned long long)opno, kname[K], (unsigned long long)b, n); }
	/* a trie never needs more than the inner nodes of its keys */
	if (K >= TE || K == TI) CHECK(O_HEAP, H.live_bytes == B0, "heap-used", "operation %llu: %s holds heap memory", (unsigned long long)opno, kname[K]);
}
/* ------------------------------------------------------------------ lists */
static void walk(int w)
{
	tommy_list* l = w ? &L2 : c_(list); tommy_node* p = s_list_head(l); tommy_node* prev = s_list_tail(l); int i = 0;
	for (; p; prev = p, p = p->next, ++i) {
		CHECK(ANY | O_MEM | O_ORD, i < cn[w] && p == node_of(seq[w][i]) && p->data == node_of(seq[w][i]), "list-order", "operation %llu: another object at position %d of the list", (unsigned long long)opno, i);
		CHECK(ANY | O_MEM, p->prev == prev, "prev-link", "operation %llu: wrong previous object at position %d of the list", (unsigned long long)opno, i);
	}
	CHECK(ANY | O_MEM, i == cn[w] && prev == s_list_tail(l), "list-length", "operation %llu: the list has %d objects instead of %d", (unsigned long long)opno, i, cn[w]);
	if (!(opno & 15)) CHECK(ANY | O_MEM, s_list_count(l) == (tommy_size_t)cn[w] && !s_list_empty(l) == (cn[w] != 0), "wrong-count", "operation %llu: the list reports another number of objects", (unsigned long long)opno);
}
static void list_op(int up)
{
	int w = (int)rndn(2), i, j; tommy_list* l = w ? &L2 : c_(list); unsigned k = (unsigned)rndn(100); uint8_t t;
	if (k < 3) {
		mon_op("concat", (uint64_t)w, (uint64_t)cn[0], (uint64_t)cn[1]);
		s_list_concat(l, w ? c_(list) : &L2);
		memcpy(seq[w] + cn[w], seq[!w], (size_t)cn[!w]); cn[w] += cn[!w]; cn[!w] = 0;
		s_list_init(w ? c_(list) : &L2);
		walk(!w);
	} else if (k < 13) {
		uint64_t lim = 0;
		mon_op("sort", (uint64_t)cn[w], 0, 0); ncmp = 0; ++nsort;
		s_list_sort(l, cb_cmp);
		for (i = cn[w]; i > 1; i /= 2) ++lim;
		CHECK(O_WORK, cn[w] < 2 || ncmp <= (lim + 3) * (uint64_t)cn[w], "too-many-comparisons", "operation %llu: %llu comparisons to sort %d objects", (unsigned long long)opno, (unsigned long long)ncmp, cn[w]);
		for (i = 1; i < cn[w]; ++i) for (j = i; j && key[cls[seq[w][j - 1]]] > key[cls[seq[w][j]]]; --j) { t = seq[w][j]; seq[w][j] = seq[w][j - 1]; seq[w][j - 1] = t; }
	} else if (up ? n < M : n == 0) {
		int e = (int)rndn((uint64_t)M); void* p;
		while (in[e]) e = (e + 1) % M;
		p = node_of(e); in[e] = 1; ++n;
		mon_op("insert", (uint64_t)e, k & 1, (uint64_t)cn[w]);
		if (k & 1) { s_list_insert_head(l, (tommy_node*)p, p); memmove(seq[w] + 1, seq[w], (size_t)cn[w]); seq[w][0] = (uint8_t)e; ++cn[w]; }
		else { s_list_insert_tail(l, (tommy_node*)p, p); seq[w][cn[w]++] = (uint8_t)e; }
	} else {
		void* r; int e;
		if (!cn[w]) { w = !w; l = w ? &L2 : c_(list); }
		i = k & 1 ? 0 : k & 2 ? cn[w] - 1 : (int)rndn((uint64_t)cn[w]); e = seq[w][i];
		mon_op("remove_existing", (uint64_t)e, (uint64_t)i, (uint64_t)cn[w]);
		r = s_list_remove_existing(l, (tommy_node*)node_of(e));
		CHECK(ANY | O_MEM, r == node_of(e), "remove-result", "operation %llu: remove_existing returned %p", (unsigned long long)opno, r);
		for (--cn[w]; i < cn[w]; ++i) seq[w][i] = seq[w][i + 1];
		in[e] = 0; --n;
	}
	walk(w);
}
/* ------------------------------------------------------------------ allocators */
static void block_check(int e) { size_t j; uint64_t* p = (uint64_t*)blk[e]; for (j = 0; j < bsize / 8; ++j) CHECK(ANY | O_MEM | O_ADDR, p[j] == tag[e] + j, "block-changed", "operation %llu: a block in use changed", (unsigned long long)opno); }
static void alloc_op(int up)
{
	int e; size_t j; uint64_t ev;
	if (up ? n < M : n == 0) {
		for (e = (int)rndn((uint64_t)M); in[e]; e = (e + 1) % M) ;
		mon_op("alloc", (uint64_t)e, (uint64_t)n, 0);
		ev = mon_heap_events();
		blk[e] = s_allocator_alloc(c_(allocator));
		CHECK(ANY | O_ADDR, blk[e] && ((uintptr_t)blk[e] & 15) == 0, "misaligned", "operation %llu: block at %p", (unsigned long long)opno, blk[e]);
		CHECK(O_SIZE | O_HEAP, n >= peak || mon_heap_events() == ev, "not-reused", "operation %llu: memory was requested with %d blocks in use of the %d used before", (unsigned long long)opno, n, peak);
		in[e] = 1; if (++n > peak) peak = n;
		tag[e] = opno << 8;
		for (j = 0; j < bsize / 8; ++j) ((uint64_t*)blk[e])[j] = tag[e] + j;
	} else {
		for (e = (int)rndn((uint64_t)M); !in[e]; e = (e + 1) % M) ;
		block_check(e);
		mon_op("free", (uint64_t)e, (uint64_t)n, 0);
		s_allocator_free(c_(allocator), blk[e]);
		in[e] = 0; --n;
	}
	CHECK(O_USE, s_allocator_memory_usage(c_(allocator)) == (uint64_t)n * bsize, "wrong-memory-usage", "operation %llu: the allocator reports %llu bytes for %d blocks of %u", (unsigned long long)opno, (unsigned long long)s_allocator_memory_usage(c_(allocator)), n, (unsigned)bsize);
	if ((opno & 1023) == 0) for (e = 0; e < M; ++e) if (in[e]) block_check(e);
}
static int run_case(long index)
{
	int ks[NKIND], nk = 0, k, i, up = 1, steady, lo, hi; uint64_t ops, limit = H.live;
	for (k = 0; k < NKIND; ++k) { char t[32]; snprintf(t, sizeof(t), "+%s ", kname[k]); if (strstr(mon_variant, t) || !strchr(mon_variant, '+')) ks[nk++] = k; }
	REQUIRE(nk);
	K = ks[index % nk];
	ops = (uint64_t)((K == LI ? 1 << 23 : 25000000) * mon_scale); ops += rndn(ops / 8);
	/* about as many as make the tables grow and shrink */
	M = K == HL ? 40 + (int)rndn(60) : K == HD ? 10 + (int)rndn(30) : K == LI ? 4 + (int)rndn(12) : 2 + (int)rndn(40);
	D = 2 + (int)rndn((uint64_t)M - 1); if (K == LI || K == AL) D = 1 + M / 2;
	memset(in, 0, sizeof(in)); memset(cn, 0, sizeof(cn)); n = 0; peak = 0; nresize = nsort = 0;
	for (i = 0; i < D; ++i) {
		int j, mode = (int)(index / nk + (long)mon_seed) % 3;
		do {
			key[i] = K == TR || K == TI ? (mode == 0 ? (uint64_t)i : mode == 1 ? rnd() & 0xffffffffu : (rnd() & 0xf) << (4 * rndn(8))) : mode == 0 ? (uint64_t)i : mode == 1 ? rnd() : rndn(128);
			if (sizeof(tommy_hash_t) == 4 || K == TR || K == TI) key[i] &= 0xffffffffu;
			for (j = 0; j < i && key[j] != key[i]; ++j) ;
		} while (j < i);
	}
	for (i = 0; i < M; ++i) cls[i] = i < D ? i : (int)rndn((uint64_t)D);
	A = (char*)aligned_alloc(64, (size_t)M * NODE); C = malloc(4096); REQUIRE(A && C && sizeof(tommy_trie_inplace_node) <= NODE && sizeof(tommy_hashlin) <= 4096);
	mon_garbage(A, (size_t)M * NODE); mon_garbage(C, 4096);
	mon_heap_fill = (unsigned)rndn(4);
	B0 = H.live_bytes;
	bsize = 16 * (1 + rndn(4));
	switch (K) {
	case LI: s_list_init(c_(list)); s_list_init(&L2); break;
	case AL: s_allocator_init(c_(allocator), bsize, 16); break;
	default: MAPS(s_hashtable_init(c_(hashtable), (tommy_size_t)rndn(40)), s_hashdyn_init(c_(hashdyn)), s_hashlin_init(c_(hashlin)), (s_allocator_init(&INNER, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE), s_trie_init(c_(trie), &INNER)), s_trie_inplace_init(c_(trie_inplace)), s_tree_init(c_(tree), cb_cmp))
	}
	lo = 0; hi = M; steady = 0;
	for (opno = 1; opno <= ops; ++opno) {
		if (up ? n >= hi : n <= lo) { up = !up; if (!up) lo = chance(70) ? 0 : (int)rndn((uint64_t)hi); else { hi = chance(70) ? M : lo + 1 + (int)rndn((uint64_t)(M - lo)); } }
		/* for a while the number of objects does not change */
		if ((opno & 0xfffff) == 0x80000) steady = chance(30);
		if ((opno & 0xfffff) == 0xfffff) steady = 0;
		if (steady) up = !(opno & 1);
		if (K == LI) list_op(up);
		else if (K == AL) alloc_op(up);
		else {
			int e = (int)rndn((uint64_t)M), j;
			if (K == TE && up) { for (j = 0; j < M && cn[cls[e]]; ++j) e = (e + 1) % M; if (chance(2)) e = (int)rndn((uint64_t)M); }
			else for (j = 0; j < M && in[e] == up; ++j) e = (e + 1) % M;
			if (!up && in[e]) removal(e, (int)(rnd() & 1));
			else if (up && !in[e]) insert(e);
			if (K == TE && up && n == D) up = 0;
			if (rnd() & 1) search((int)rndn((uint64_t)D));
			if ((opno & 2047) == 0) audit();
			if ((opno & 0x3ffff) == 0) mon_res(mix64((uint64_t)n, opno));
		}
	}
	for (k = 0; K <= TE && k < M; ++k) if (in[k]) removal(k, k & 1);
	if (K <= TE) audit();
	mon_op("done", 0, 0, 0);
	switch (K) { case HT: s_hashtable_done(c_(hashtable)); break; case HD: s_hashdyn_done(c_(hashdyn)); break; case HL: s_hashlin_done(c_(hashlin)); break; case TR: s_allocator_done(&INNER); break; case AL: s_allocator_done(c_(allocator)); break; default: break; }
	CHECK(ANY | O_HEAP, H.live == limit, "heap-leak", "%llu blocks are left after done", (unsigned long long)(H.live - limit));
	mon_max("operations_on_one_container", ops); if (nresize) mon_max("resizes_of_one_container", nresize); if (nsort) mon_max("sorts_of_one_list", nsort);
	mon_sample("%s of at most %d objects and %d keys: %llu operations, %llu of them used the heap", kname[K], M, D, (unsigned long long)ops, (unsigned long long)nresize);
	free(A); free(C);
	mon_heap_reset();
	return 1;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_long", run_case); }
