/* Objects contained at once in many containers through different nodes: every operation may write only the
 * nodes of the container it is called on, and only of objects contained in it. Whole-object shadow comparison
 * after every call; under ASan the nodes not contained are poisoned, so that reading them is reported too. */
#include "sut.h"
#include "sut_api.h"
#ifdef MON_ASAN
#include <sanitizer/asan_interface.h>
#define HIDE(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define SHOW(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define HIDE(p, n) ((void)(p), (void)(n))
#define SHOW(p, n) ((void)(p), (void)(n))
#endif

enum { LI, TE, HT, HD, HL, TR, TI, NK };
static const char* kname[NK] = { "list", "tree", "hashtable", "hashdyn", "hashlin", "trie", "trie_inplace" };
#define PER 2
#define NC (NK * PER)
#define GAP 16
static size_t nsize(int k) { return k == TI ? sizeof(tommy_trie_inplace_node) : sizeof(tommy_node); }

struct cont { int kind; void* c; unsigned n; uint64_t order[2048]; /* contained ids, insertion order */ uint64_t released; };
static struct cont C[NC];
static tommy_allocator* A;
static unsigned N;
static size_t osize, noff[NC];
static unsigned char** obj;   /* the objects */
static unsigned char** shadow;/* what they must contain */
static uint8_t* in;           /* bitmap: in[id * NC + c] */
static uint64_t* key;
static char* data;            /* data pointers point here and are never dereferenced by the library */

static void* node(unsigned c, unsigned id) { return obj[id] + noff[c]; }
static void* dat(unsigned id) { return data + 3 * id + 1; }
static int idof(const void* p, unsigned* id) { size_t o = (size_t)((uintptr_t)p - (uintptr_t)data); if (o % 3 != 1 || o / 3 >= N) return 0; *id = (unsigned)(o / 3); return 1; }
static int cur = -1;
/* operations in progress: their callbacks use the other containers, and look into the same one */
#define DEPTH 3
static struct { unsigned c; int extra, readonly; } busy[DEPTH + 1];
static unsigned depth, nested_now; static uint64_t nest_left;
#define NESTED (depth || nested_now ? O_CB : 0) /* a wrong result with operations inside operations */
static void nest(void);
#define ENTER(k, x, ro) do { busy[depth].c = (k); busy[depth].extra = (x); busy[depth].readonly = (ro); ++depth; } while (0)
#define LEAVE() (--depth)
static const void* cur_arg; static uint64_t cur_key; static unsigned cur_want;
static int cur_fn; /* which of the functions the operation in progress was given */
static char args[8];
#define FN_CHECK(k) CHECK(O_CB, (k) == cur_fn, "callback-of-another-operation", "the %s called the function given to another operation", cur < 0 ? "library" : kname[C[cur].kind])

static void show_all(void) { unsigned i; for (i = 0; i < N; ++i) SHOW(obj[i], osize); }
static void hide_out(void)
{
	unsigned i, c;
	for (i = 0; i < N; ++i) {
		HIDE(obj[i], osize);
		for (c = 0; c < NC; ++c) if (in[i * NC + c]) SHOW(obj[i] + noff[c], nsize(C[c].kind));
	}
	for (c = 0; c < depth; ++c) if (busy[c].extra >= 0) SHOW(obj[busy[c].extra] + noff[busy[c].c], nsize(C[busy[c].c].kind));
}
/* after an operation on container c: writable nodes are those of c of contained objects, and of the object extra */
static void compare(unsigned c, int extra, const char* op)
{
	unsigned i, k;
	if (!(mon_mask & O_OBJ)) return;
	if (MON_IS_ASAN) show_all();
	/* what the operations in progress may be writing is verified when they end */
	for (k = 0; k < depth; ++k) {
		unsigned b = busy[k].c;
		if (busy[k].readonly) continue;
		for (i = 0; i < N; ++i) if (in[i * NC + b] || (int)i == busy[k].extra) memcpy(shadow[i] + noff[b], obj[i] + noff[b], nsize(C[b].kind));
	}
	for (i = 0; i < N; ++i) {
		size_t o = noff[c], n = nsize(C[c].kind);
		int w = in[i * NC + c] || (int)i == extra;
		if (w) {
			tommy_node* nd = (tommy_node*)(obj[i] + o);
			if (memcmp(obj[i], shadow[i], o) || memcmp(obj[i] + o + n, shadow[i] + o + n, osize - o - n)) goto bad;
			if (in[i * NC + c]) CHECK(O_OBJ, (C[c].kind == TI ? ((tommy_trie_inplace_node*)nd)->data : nd->data) == dat(i), "data-pointer-changed",
				"%s on a %s changed the data pointer in the node of a contained object (%u)", op, kname[C[c].kind], i);
			memcpy(shadow[i] + o, obj[i] + o, n);
		} else if (memcmp(obj[i], shadow[i], osize)) goto bad;
	}
	if (MON_IS_ASAN) hide_out();
	mon_stat("objects_compared", N);
	return;
bad:
	for (k = 0; k < osize && obj[i][k] == shadow[i][k]; ++k) ;
	{
		unsigned j;
		for (j = 0; j < NC; ++j) if (k >= noff[j] && k < noff[j] + nsize(C[j].kind)) {
			if (j == c) mon_report(O_OBJ, "write-after-removal", "%s on %s %u wrote byte %u of its node in object %u which is not contained", op, kname[C[c].kind], c % PER, (unsigned)(k - noff[j]), i);
			mon_report(O_OBJ, "write-other-node", "%s on %s %u wrote byte %u of the node of %s %u in object %u", op, kname[C[c].kind], c % PER, (unsigned)(k - noff[j]), kname[C[j].kind], j % PER, i);
		}
		mon_report(O_OBJ, "write-object-byte", "%s on %s %u wrote byte %u of object %u, which belongs to no node", op, kname[C[c].kind], c % PER, k, i);
	}
}
/* ------------------------------------------------------------------ callbacks */
static int tree_cmp(const void* a, const void* b, int k)
{
	unsigned x, y;
	FN_CHECK(k);
	if (cur < 0 || !idof(a, &x) || !idof(b, &y)) { mon_report(O_CB | O_OBJ, "callback-foreign-object", "tree comparison of something that is not an object"); return 0; }
	CHECK(O_CB | O_OBJ, in[y * NC + cur], "callback-removed-object", "tree comparison with object %u which is not contained", y);
	nest();
	return key[x] == key[y] ? 0 : (key[x] < key[y]) == !k ? -1 : 1;
}
static int cb_tree0(const void* a, const void* b) { return tree_cmp(a, b, 0); }
static int cb_tree1(const void* a, const void* b) { return tree_cmp(a, b, 1); }
static tommy_compare_func* const cb_tree[2] = { cb_tree0, cb_tree1 };
static int sort_cmp(const void* a, const void* b, int k)
{
	unsigned x, y;
	FN_CHECK(k);
	if (cur < 0 || !idof(a, &x) || !idof(b, &y) || !in[x * NC + cur] || !in[y * NC + cur]) { mon_report(O_CB | O_OBJ, "callback-foreign-object", "sort compared objects not contained"); return 0; }
	nest();
	return key[x] == key[y] ? 0 : (key[x] < key[y]) == !k ? -1 : 1;
}
static int cb_sort0(const void* a, const void* b) { return sort_cmp(a, b, 0); }
static int cb_sort1(const void* a, const void* b) { return sort_cmp(a, b, 1); }
static int hash_cmp(const void* arg, const void* b, int k)
{
	unsigned y;
	FN_CHECK(k);
	if (cur < 0 || arg != cur_arg || !idof(b, &y)) { mon_report(O_CB | O_OBJ, "callback-foreign-object", "search called the comparison function with something else than its argument and an object"); return 1; }
	CHECK(O_CB | O_OBJ, in[y * NC + cur] && key[y] == cur_key, "callback-removed-object", "search compared object %u which is not contained or has another hash", y);
	nest();
	return cur_want == ~0u ? 0 : y != cur_want;
}
static int cb_hash0(const void* a, const void* b) { return hash_cmp(a, b, 0); }
static int cb_hash1(const void* a, const void* b) { return hash_cmp(a, b, 1); }
static uint64_t seen; static unsigned releasing;
static void each(void* b, int k)
{
	unsigned y;
	FN_CHECK(k);
	if (cur < 0 || !idof(b, &y) || !in[y * NC + cur]) { mon_report(O_EACH | O_OBJ, "foreach-foreign-object", "foreach of %s visited something not contained", kname[C[cur < 0 ? 0 : cur].kind]); return; }
	++seen;
	mon_res(y);
	nest();
	if (releasing) { /* the node may be reused from now on */
		SHOW(obj[y], osize);
		in[y * NC + cur] = 0;
		mon_garbage(obj[y] + noff[cur], nsize(C[cur].kind)); memcpy(shadow[y] + noff[cur], obj[y] + noff[cur], nsize(C[cur].kind));
		HIDE(obj[y] + noff[cur], nsize(C[cur].kind));
	}
}
static void each_arg(void* arg, void* b, int k) { CHECK(O_CB | O_EACH, arg == cur_arg, "foreach-wrong-argument", "wrong foreach argument"); each(b, k); }
static void cb_each0(void* b) { each(b, 0); }
static void cb_each1(void* b) { each(b, 1); }
static void cb_each_arg0(void* arg, void* b) { each_arg(arg, b, 0); }
static void cb_each_arg1(void* arg, void* b) { each_arg(arg, b, 1); }
#define BEGIN_FN() do { cur_fn = (int)(rnd() & 1); cur_arg = rndn(4) ? (const void*)&args[rndn(8)] : rndn(4) ? dat((unsigned)rndn(N)) : 0; } while (0)

/* ------------------------------------------------------------------ operations */
static void c_init(unsigned c)
{
	size_t n = 0;
	C[c].n = 0;
	switch (C[c].kind) { case LI: n = sizeof(tommy_list); break; case TE: n = sizeof(tommy_tree); break; case HT: n = sizeof(tommy_hashtable); break;
	case HD: n = sizeof(tommy_hashdyn); break; case HL: n = sizeof(tommy_hashlin); break; case TR: n = sizeof(tommy_trie); break; default: n = sizeof(tommy_trie_inplace); }
	C[c].c = malloc(n); REQUIRE(C[c].c); mon_garbage(C[c].c, n);
	switch (C[c].kind) {
	case LI: s_list_init((tommy_list*)C[c].c); break;
	case TE: s_tree_init((tommy_tree*)C[c].c, cb_tree[c % PER]); break;
	case HT: s_hashtable_init((tommy_hashtable*)C[c].c, (tommy_size_t)rndn(64)); break;
	case HD: s_hashdyn_init((tommy_hashdyn*)C[c].c); break;
	case HL: s_hashlin_init((tommy_hashlin*)C[c].c); break;
	case TR: s_trie_init((tommy_trie*)C[c].c, A); break;
	case TI: s_trie_inplace_init((tommy_trie_inplace*)C[c].c); break;
	}
}
static unsigned first_of(unsigned c, uint64_t k, unsigned* pos) { unsigned i; for (i = 0; i < C[c].n; ++i) if (key[C[c].order[i]] == k) { if (pos) *pos = i; return (unsigned)C[c].order[i]; } return ~0u; }
static void drop(unsigned c, unsigned id)
{
	unsigned i = 0;
	while (C[c].order[i] != id) ++i;
	memmove(&C[c].order[i], &C[c].order[i + 1], (C[c].n - i - 1) * sizeof(uint64_t)); --C[c].n;
	in[id * NC + c] = 0;
}
static int stale;
static void scramble(unsigned c, unsigned id)
{
	if (MON_IS_ASAN) SHOW(obj[id], osize);
	/* or what the library left in the node stays there */
	if (!stale) mon_garbage(obj[id] + noff[c], nsize(C[c].kind));
	memcpy(shadow[id] + noff[c], obj[id] + noff[c], nsize(C[c].kind));
	if (MON_IS_ASAN) hide_out();
}
static void insert(unsigned c, unsigned id)
{
	void* n = node(c, id);
	mon_op("insert", c, key[id], id);
	cur = (int)c; cur_fn = (int)(c % PER);
	SHOW(n, nsize(C[c].kind));
	ENTER(c, (int)id, 0);
	switch (C[c].kind) {
	case LI: if (chance(50)) { s_list_insert_tail((tommy_list*)C[c].c, (tommy_node*)n, dat(id)); in[id * NC + c] = 1; C[c].order[C[c].n++] = id; }
		else { s_list_insert_head((tommy_list*)C[c].c, (tommy_node*)n, dat(id)); in[id * NC + c] = 1; memmove(C[c].order + 1, C[c].order, C[c].n * 8); C[c].order[0] = id; ++C[c].n; } break;
	case TE: {
		unsigned w = first_of(c, key[id], 0); void* r;
		in[id * NC + c] = w == ~0u; /* the comparison function may be called with itself */
		r = s_tree_insert((tommy_tree*)C[c].c, (tommy_tree_node*)n, dat(id));
		CHECK(O_MEM | O_OBJ | NESTED, r == dat(w == ~0u ? id : w), "tree-insert-result", "tree insert returned the wrong object");
		if (w == ~0u) C[c].order[C[c].n++] = id;
		break; }
	case HT: s_hashtable_insert((tommy_hashtable*)C[c].c, (tommy_node*)n, dat(id), (tommy_hash_t)key[id]); goto add;
	case HD: s_hashdyn_insert((tommy_hashdyn*)C[c].c, (tommy_node*)n, dat(id), (tommy_hash_t)key[id]); goto add;
	case HL: s_hashlin_insert((tommy_hashlin*)C[c].c, (tommy_node*)n, dat(id), (tommy_hash_t)key[id]); goto add;
	case TR: s_trie_insert((tommy_trie*)C[c].c, (tommy_node*)n, dat(id), (tommy_key_t)key[id]); goto add;
	case TI: s_trie_inplace_insert((tommy_trie_inplace*)C[c].c, (tommy_trie_inplace_node*)n, dat(id), (tommy_key_t)key[id]);
	add: in[id * NC + c] = 1; C[c].order[C[c].n++] = id;
	}
	LEAVE();
	compare(c, (int)id, "insert");
	mon_res(id);
	cur = -1;
}
static void remove_(unsigned c, unsigned id, int by_key)
{
	void* r = 0; void* n = node(c, id); unsigned want = id; uint64_t k = key[id];
	unsigned char before[64];
	mon_op(by_key ? "remove" : "remove_existing", c, k, id);
	cur = (int)c; cur_key = k; cur_want = id;
	BEGIN_FN(); if (C[c].kind == TE) cur_fn = (int)(c % PER);
	if (by_key && (C[c].kind == TR || C[c].kind == TI || (C[c].kind >= HT && C[c].kind <= HL && chance(30)))) { want = first_of(c, k, 0); cur_want = ~0u; }
	memcpy(before, n, nsize(C[c].kind));
	ENTER(c, -1, 0);
	switch (C[c].kind * 2 + (by_key ? 1 : 0)) {
	case LI * 2: case LI * 2 + 1: r = s_list_remove_existing((tommy_list*)C[c].c, (tommy_node*)n); break;
	case TE * 2: r = s_tree_remove_existing((tommy_tree*)C[c].c, (tommy_tree_node*)n); break;
	case TE * 2 + 1: r = s_tree_remove((tommy_tree*)C[c].c, dat(id)); break;
	case HT * 2: r = s_hashtable_remove_existing((tommy_hashtable*)C[c].c, (tommy_node*)n); break;
	case HT * 2 + 1: r = s_hashtable_remove((tommy_hashtable*)C[c].c, cur_fn ? cb_hash1 : cb_hash0, cur_arg, (tommy_hash_t)k); break;
	case HD * 2: r = s_hashdyn_remove_existing((tommy_hashdyn*)C[c].c, (tommy_node*)n); break;
	case HD * 2 + 1: r = s_hashdyn_remove((tommy_hashdyn*)C[c].c, cur_fn ? cb_hash1 : cb_hash0, cur_arg, (tommy_hash_t)k); break;
	case HL * 2: r = s_hashlin_remove_existing((tommy_hashlin*)C[c].c, (tommy_node*)n); break;
	case HL * 2 + 1: r = s_hashlin_remove((tommy_hashlin*)C[c].c, cur_fn ? cb_hash1 : cb_hash0, cur_arg, (tommy_hash_t)k); break;
	case TR * 2: r = s_trie_remove_existing((tommy_trie*)C[c].c, (tommy_node*)n); break;
	case TR * 2 + 1: r = s_trie_remove((tommy_trie*)C[c].c, (tommy_key_t)k); break;
	case TI * 2: r = s_trie_inplace_remove_existing((tommy_trie_inplace*)C[c].c, (tommy_trie_inplace_node*)n); break;
	case TI * 2 + 1: r = s_trie_inplace_remove((tommy_trie_inplace*)C[c].c, (tommy_key_t)k); break;
	}
	LEAVE();
	CHECK(O_MEM | O_OBJ | NESTED, r == dat(want), "remove-result", "remove from %s returned the wrong object", kname[C[c].kind]);
	if (C[c].kind == LI && want == id) CHECK(O_OBJ, memcmp(before, n, sizeof(tommy_node)) == 0, "list-removed-node", "removing from a list changed the removed node");
	compare(c, (int)want, "remove");
	drop(c, want);
	scramble(c, want); /* at once available for other uses */
	mon_res(want);
	cur = -1;
}
static void search(unsigned c, unsigned id)
{
	unsigned want = first_of(c, key[id], 0); void* r; 
	tommy_node* b = 0;
	mon_op("search", c, key[id], id);
	cur = (int)c; cur_key = key[id]; cur_want = ~0u;
	BEGIN_FN(); if (C[c].kind == TE) cur_fn = (int)(c % PER);
	r = want == ~0u ? 0 : dat(want);
	ENTER(c, -1, 1);
	switch (C[c].kind) {
	case LI: (void)s_list_count((tommy_list*)C[c].c); CHECK(O_OBJ, (s_list_head((tommy_list*)C[c].c) != 0) == (C[c].n != 0), "list-head", "wrong list head"); break;
	case TE: r = s_tree_search((tommy_tree*)C[c].c, dat(id)); break;
	case HT: r = s_hashtable_search((tommy_hashtable*)C[c].c, cur_fn ? cb_hash1 : cb_hash0, cur_arg, (tommy_hash_t)key[id]); b = s_hashtable_bucket((tommy_hashtable*)C[c].c, (tommy_hash_t)key[id]); break;
	case HD: r = s_hashdyn_search((tommy_hashdyn*)C[c].c, cur_fn ? cb_hash1 : cb_hash0, cur_arg, (tommy_hash_t)key[id]); b = s_hashdyn_bucket((tommy_hashdyn*)C[c].c, (tommy_hash_t)key[id]); break;
	case HL: r = s_hashlin_search((tommy_hashlin*)C[c].c, cur_fn ? cb_hash1 : cb_hash0, cur_arg, (tommy_hash_t)key[id]); b = s_hashlin_bucket((tommy_hashlin*)C[c].c, (tommy_hash_t)key[id]); break;
	case TR: r = s_trie_search((tommy_trie*)C[c].c, (tommy_key_t)key[id]); b = s_trie_bucket((tommy_trie*)C[c].c, (tommy_key_t)key[id]); break;
	case TI: r = s_trie_inplace_search((tommy_trie_inplace*)C[c].c, (tommy_key_t)key[id]); break;
	}
	LEAVE();
	while (b) b = b->next; /* under ASan: only contained nodes are readable */
	CHECK(O_MEM | O_OBJ | NESTED, r == (want == ~0u ? 0 : dat(want)), "search-result", "search in %s returned the wrong object", kname[C[c].kind]);
	compare(c, -1, "search");
	mon_res(want);
	cur = -1;
}
static void foreach(unsigned c, int rel)
{
	int arg = (int)(rnd() & 1); unsigned n = C[c].n;
	if (C[c].kind == TR || C[c].kind == TI) return;
	mon_op(rel ? "foreach-release" : "foreach", c, n, 0);
	cur = (int)c; seen = 0; releasing = (unsigned)rel;
	BEGIN_FN();
	if (rel) C[c].n = 0;
	ENTER(c, -1, !rel);
	switch (C[c].kind) {
	case LI: if (arg) s_list_foreach_arg((tommy_list*)C[c].c, cur_fn ? cb_each_arg1 : cb_each_arg0, (void*)cur_arg); else s_list_foreach((tommy_list*)C[c].c, cur_fn ? cb_each1 : cb_each0); break;
	case TE: if (arg) s_tree_foreach_arg((tommy_tree*)C[c].c, cur_fn ? cb_each_arg1 : cb_each_arg0, (void*)cur_arg); else s_tree_foreach((tommy_tree*)C[c].c, cur_fn ? cb_each1 : cb_each0); break;
	case HT: if (arg) s_hashtable_foreach_arg((tommy_hashtable*)C[c].c, cur_fn ? cb_each_arg1 : cb_each_arg0, (void*)cur_arg); else s_hashtable_foreach((tommy_hashtable*)C[c].c, cur_fn ? cb_each1 : cb_each0); break;
	case HD: if (arg) s_hashdyn_foreach_arg((tommy_hashdyn*)C[c].c, cur_fn ? cb_each_arg1 : cb_each_arg0, (void*)cur_arg); else s_hashdyn_foreach((tommy_hashdyn*)C[c].c, cur_fn ? cb_each1 : cb_each0); break;
	case HL: if (arg) s_hashlin_foreach_arg((tommy_hashlin*)C[c].c, cur_fn ? cb_each_arg1 : cb_each_arg0, (void*)cur_arg); else s_hashlin_foreach((tommy_hashlin*)C[c].c, cur_fn ? cb_each1 : cb_each0); break;
	}
	LEAVE();
	releasing = 0;
	CHECK(O_EACH | O_OBJ | NESTED, seen == n, "foreach-missed", "foreach of %s visited %llu of %u objects", kname[C[c].kind], (unsigned long long)seen, n);
	compare(c, -1, "foreach");
	mon_res(seen);
	cur = -1;
}
static void sort(unsigned l)
{
	tommy_node* p; unsigned q, n = 0; int dir = (int)(rnd() & 1);
	mon_op("sort", l, C[l].n, (uint64_t)dir);
	cur = (int)l; cur_fn = dir;
	ENTER(l, -1, 0);
	s_list_sort((tommy_list*)C[l].c, dir ? cb_sort1 : cb_sort0);
	LEAVE();
	compare(l, -1, "sort");
	p = s_list_head((tommy_list*)C[l].c);
	while (p && n < C[l].n) { if (idof(p->data, &q)) C[l].order[n] = q; ++n; p = p->next; }
	CHECK(O_MEM | O_OBJ | NESTED, !p && n == C[l].n, "sort-lost", "sort lost or added objects");
	for (q = 1; q < n; ++q) CHECK(O_MEM | O_OBJ | NESTED, dir ? key[C[l].order[q - 1]] >= key[C[l].order[q]] : key[C[l].order[q - 1]] <= key[C[l].order[q]], "sort-order", "sort left a list out of order");
	cur = -1; mon_res(0);
}
/* called from the callbacks: any other container can be used, and the one in use can be searched and iterated while it is not being modified */
static void nest(void)
{
	int cur0 = cur; const void* arg0 = cur_arg; uint64_t key0 = cur_key, seen0 = seen; unsigned want0 = cur_want, rel0 = releasing, c, i, id; int fn0 = cur_fn;
	if (!nest_left || depth >= DEPTH || !chance(4)) return;
	--nest_left; nested_now = 1;
	c = (unsigned)rndn(NC); id = (unsigned)rndn(N);
	if (!C[c].c) return; /* already destroyed */
	for (i = 0; i < depth; ++i) if (busy[i].c == c) break;
	releasing = 0;
	if (i < depth || chance(15)) {
		c = busy[depth - 1].c;
		for (i = 0; i < depth; ++i) if (busy[i].c == c && !busy[i].readonly) break;
		if (i == depth) { if (chance(60)) search(c, id); else foreach(c, 0); mon_stat("nested_in_the_same_container", 1); }
	} else {
		switch (rndn(6)) {
		case 0: if (C[c].kind == LI) sort(c); else search(c, id); break;
		case 1: foreach(c, 0); break;
		case 2: search(c, id); break;
		default: if (!in[id * NC + c]) insert(c, id); else remove_(c, id, chance(50));
		}
		mon_stat("nested_in_other_containers", 1);
	}
	mon_max("max_nesting", depth + 1);
	cur = cur0; cur_arg = arg0; cur_key = key0; seen = seen0; cur_want = want0; releasing = rel0; cur_fn = fn0;
}
/* a container destroyed while it still has objects, all of them already released */
static void destroy(unsigned c)
{
	unsigned i, rel = C[c].kind != TR && C[c].kind != TI && C[c].kind != LI && C[c].kind != TE && chance(50);
	mon_op("done", c, C[c].n, rel);
	cur = (int)c;
	if (rel) foreach(c, 1);
	if (C[c].kind == TR) while (C[c].n) remove_(c, (unsigned)C[c].order[rndn(C[c].n)], 0); /* its inner nodes belong to the shared allocator */
	for (i = 0; i < C[c].n; ++i) { unsigned id = (unsigned)C[c].order[i]; in[id * NC + c] = 0; scramble(c, id); }
	C[c].n = 0;
	if (C[c].kind == HT) s_hashtable_done((tommy_hashtable*)C[c].c);
	if (C[c].kind == HD) s_hashdyn_done((tommy_hashdyn*)C[c].c);
	if (C[c].kind == HL) s_hashlin_done((tommy_hashlin*)C[c].c);
	compare(c, -1, "done");
	free(C[c].c); C[c].c = 0;
	cur = -1;
	mon_res(0);
}
static int run_case(long index)
{
	unsigned c, i, ops, k, keys; size_t off;
	uint64_t total = 0, maxsim = 0;
	unsigned shift = (unsigned)rndn(33);
	uint64_t base = rnd() & 0xffffffff;
	(void)index;
	mon_heap_fill = (unsigned)rndn(4);
	N = strstr(mon_variant, "big") ? 1200 : 8 + (unsigned)rndlog(250);
	ops = N * (20 + (unsigned)rndn(20)) + 200;
	if (N > 300) ops = N * 12;
	keys = 1 + (unsigned)rndlog(2 * N);
	off = GAP;
	for (c = 0; c < NC; ++c) { memset(&C[c], 0, sizeof(C[c])); C[c].kind = (int)(c / PER); }
	/* nodes in random places of the object */
	for (c = 0; c < NC; ++c) noff[c] = 0;
	for (i = 0; i < NC; ++i) {
		do c = (unsigned)rndn(NC); while (noff[c]);
		noff[c] = off; off += (nsize(C[c].kind) + 7) / 8 * 8;
		if (chance(50)) off += GAP;
	}
	osize = off + GAP;
	obj = (unsigned char**)calloc(N, sizeof(*obj)); shadow = (unsigned char**)calloc(N, sizeof(*obj)); in = (uint8_t*)calloc(N, NC); key = (uint64_t*)calloc(N, 8); data = (char*)malloc(3 * N + 3);
	for (i = 0; i < N; ++i) {
		obj[i] = (unsigned char*)malloc(osize); shadow[i] = (unsigned char*)malloc(osize);
		mon_garbage(obj[i], osize);
		memcpy(shadow[i], obj[i], osize);
		HIDE(obj[i], osize);
		key[i] = (base + (shift < 24 ? rndn(keys) << shift : rndn(keys) * 0x9e3779b1u)) & 0xffffffff;
	}
	stale = chance(35);
	A = (tommy_allocator*)malloc(sizeof(*A)); mon_garbage(A, sizeof(*A));
	s_allocator_init(A, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE);
	for (c = 0; c < NC; ++c) c_init(c);
	depth = 0;
	while (ops--) {
		unsigned id = (unsigned)rndn(N), mode = (unsigned)rndn(100), fill = (ops / (N * 4)) & 1;
		nest_left = 3; nested_now = 0;
		c = (unsigned)rndn(NC);
		k = in[id * NC + c];
		if (mode < 62) {
			/* everywhere or in one container, more insertions or more removals by turns */
			if (chance(25)) {
				for (c = 0; c < NC; ++c) {
					if (!in[id * NC + c]) { if (!fill || chance(40)) insert(c, id); }
					else if (fill || chance(40)) remove_(c, id, chance(50));
				}
			} else if (!k) insert(c, id); else if (chance(60)) remove_(c, id, chance(50));
		} else if (mode < 90) search(c, id);
		else if (mode < 95) foreach(c, 0);
		else if (mode < 98) {
			unsigned l = chance(50) ? 0 : 1;
			sort(l);
		} else if (chance(15)) { destroy(c); c_init(c); }
		else if (C[c].kind == LI && chance(30)) foreach(c, 0);
		for (k = 0, i = 0; i < NC; ++i) k += in[id * NC + i];
		if (k > maxsim) maxsim = k;
		++total;
	}
	mon_max("max_containers_of_one_object", maxsim);
	for (c = 0; c < NC; ++c) destroy(c);
	s_allocator_done(A); free(A);
	mon_sample("%u objects in %u containers at once, %llu operations, %u keys << %u", N, (unsigned)NC, (unsigned long long)total, keys, shift);
	for (i = 0; i < N; ++i) { SHOW(obj[i], osize); free(obj[i]); free(shadow[i]); }
	free(obj); free(shadow); free(in); free(key); free(data);
	mon_heap_reset();
	return 1;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_mix", run_case); }
