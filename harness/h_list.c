/* Histories over lists: sequence and links, stable sort, documented costs, foreach, callbacks. */
#include "sut.h"
#include "sut_api.h"
#define NEST_GROUP O_CB
#include "nest.h"
#include <limits.h>
#include <math.h>

struct lobj { uint64_t pre; tommy_node n; uint64_t post; };
struct lmeta { int32_t key; int32_t seq; struct lobj* u; uint32_t next, prev, stamp, ord; uint8_t inst, live, pad[2]; };
static struct lmeta* M;
static uint32_t mcap, mnext, mfree;
static int data_odd, obj_free, stale;
static char* pool;
static struct mon_layout Y;
static struct lobj* place(uint32_t id)
{
	if (Y.bare) return (struct lobj*)(pool + 64 + mon_slot(&Y, id) * sizeof(tommy_node) - offsetof(struct lobj, n));
	return (struct lobj*)(pool + 64) + mon_slot(&Y, id);
}
#define PRE(id) (0xA11CE00000000000ULL ^ (uint64_t)(id) * 0x9e3779b97f4aULL)
#define POST(id) (0xB0B0000000000000ULL ^ (uint64_t)(id) * 0xbf58476d1ce4ULL)
#define NL 4
static struct { tommy_list* l; uint32_t head, tail; uint64_t n; } L[NL];
static int nl;
static uint32_t stamp_seq;

static uintptr_t data_xor;      /* data pointers are opaque: they can be any value */
static int id_of_data(const void* data, uint32_t* id)
{
	uintptr_t a = (uintptr_t)data, b = (uintptr_t)M;
	a = (a ^ data_xor) - data_odd;
	if (a < b || a >= b + (uintptr_t)(mcap + 1) * sizeof(*M) || (a - b) % sizeof(*M)) return 0;
	*id = (uint32_t)((a - b) / sizeof(*M));
	return *id >= 1 && *id <= mcap;
}
static void* data_of(uint32_t id) { return (void*)(((uintptr_t)&M[id] + data_odd) ^ data_xor); }
static int id_of_node(const tommy_node* n, uint32_t* id) { return id_of_data(n->data, id) && M[*id].live && &M[*id].u->n == n; }

/* ------------------------------------------------------------------ callbacks */
static struct { int active, inst, mode, shift; uint64_t calls, limit; } C;
static int key_cmp(uint32_t a, uint32_t b)
{
	int64_t x = M[a].key >> C.shift, y = M[b].key >> C.shift, d = x - y;
	int r;
	if (C.mode & 1) d = -d;
	if (d == 0) return 0;
	r = d < 0 ? -1 : 1;
	switch (C.mode >> 1) {
	case 0: return r;
	case 1: return r < 0 ? INT_MIN : INT_MAX;
	case 2: return r < 0 ? -(int)(1 + ((a * 31 + b) & 0xffff)) : (int)(1 + ((a * 17 + b) & 0xffff));
	case 3: return r * 0x10000;
	case 5: return r * (int)(1 + (mon_dict[(a + b) % 61 % (mon_ndict ? mon_ndict : 1)] & 0x3fffffff));
	default: return r < 0 ? (d < INT_MIN ? INT_MIN : (int)d) : (d > INT_MAX ? INT_MAX : (int)d);
	}
}
static int cb_cmp(const void* a, const void* b)
{
	uint32_t x = 0, y = 0;
	if (!C.active) mon_report(O_CB, "callback-after-return", "the comparison function was called outside a sort");
	if (++C.calls > C.limit) mon_report(O_ALWAYS, "endless-sort", "a sort made %llu comparisons and did not end", (unsigned long long)C.calls);
	if (!id_of_data(a, &x) || !id_of_data(b, &y) || !M[x].live || !M[y].live || M[x].inst != C.inst || M[y].inst != C.inst) {
		mon_report(O_CB, "callback-foreign-object", "the comparison function of a sort was called with something that is not an object of the list (%p, %p)", a, b);
		return 0;
	}
	nest_maybe();
	return key_cmp(x, y);
}
static struct { int active, inst, release; void* arg; uint32_t stamp, expect; uint64_t n; } E;
static void obj_check(uint32_t id)
{
	if (!Y.bare) CHECK(O_OBJ, M[id].u->pre == PRE(id) && M[id].u->post == POST(id), "object-bytes-modified", "bytes of the object outside its node were modified (id %u)", id);
}
static void obj_release(uint32_t id)
{
	obj_check(id);
	M[id].live = 0;
	if (obj_free) { free(M[id].u); M[id].u = 0; } else if (!stale) mon_garbage(&M[id].u->n, sizeof(tommy_node));
}
static void each(void* arg, void* obj, int with_arg)
{
	uint32_t id = 0;
	if (!E.active) mon_report(O_CB | O_EACH, "foreach-after-return", "a foreach callback was called after the operation returned");
	if (with_arg) CHECK(O_EACH | O_CB, arg == E.arg, "foreach-wrong-argument", "foreach callback got the wrong argument");
	if (!id_of_data(obj, &id) || !M[id].live || M[id].inst != E.inst) { mon_report(O_EACH | O_MEM, "foreach-foreign-object", "foreach visited something that is not an object of the list (%p)", obj); return; }
	if (M[id].stamp == E.stamp) { mon_report(O_EACH | O_MEM, "foreach-visited-twice", "foreach visited an object twice (id %u)", id); return; }
	CHECK(O_EACH | O_MEM, id == E.expect, "foreach-order", "foreach visited object %u where %u is due", id, E.expect);
	M[id].stamp = E.stamp; ++E.n; E.expect = M[id].next;
	if (E.release) obj_release(id);
}
static void cb_each(void* obj) { each(0, obj, 0); }
static void cb_each_arg(void* arg, void* obj) { each(arg, obj, 1); }

/* ------------------------------------------------------------------ operations */
static uint64_t steps0;
#define BEGIN() do { mon_heap_forbid = (mon_mask & O_HEAP) != 0; mon_budget(2000000000); steps0 = mon_steps; } while (0)
#define END() do { steps0 = mon_steps - steps0; mon_op_end(); mon_heap_forbid = 0; } while (0)
static void const_work(const char* op, int x)
{
	if (!mon_have_steps) return;
	mon_max("max_steps_of_constant_operations", steps0);
	CHECK(O_WORK, steps0 <= 64, "list-not-constant", "%s on a list of %llu objects executed %llu basic blocks", op, (unsigned long long)L[x].n, (unsigned long long)steps0);
}
static void ends_check(int x)
{
	tommy_node* h; tommy_node* t; int e;
	BEGIN(); h = s_list_head(L[x].l); t = s_list_tail(L[x].l); e = s_list_empty(L[x].l) != 0; END();
	const_work("head, tail and empty", x);
	CHECK(O_MEM, h == (L[x].head ? &M[L[x].head].u->n : 0), "wrong-head", "head of a list of %llu objects is not object %u", (unsigned long long)L[x].n, L[x].head);
	CHECK(O_MEM, t == (L[x].tail ? &M[L[x].tail].u->n : 0), "wrong-tail", "tail of a list of %llu objects is not object %u", (unsigned long long)L[x].n, L[x].tail);
	CHECK(O_MEM, e == (L[x].n == 0), "wrong-empty", "empty returned %d for a list of %llu objects", e, (unsigned long long)L[x].n);
}
/* walks next and prev links against the model; ord: called after a sort, the order is the property */
static void walk_check(int x, unsigned extra)
{
	tommy_node* i = s_list_head(L[x].l); tommy_node* prev = 0; uint32_t want = L[x].head, id = 0; uint64_t n = 0, c;
	for (; i; i = i->next) {
		if (!want || n >= L[x].n) mon_report(O_MEM | extra, "sequence-too-long", "following next the list has more objects than the %llu contained", (unsigned long long)L[x].n);
		if (!id_of_node(i, &id) || M[id].inst != x) mon_report(O_MEM | extra, "foreign-node", "a node of the list is not of an object contained, at position %llu", (unsigned long long)n);
		if (id != want) mon_report(O_MEM | extra, "wrong-sequence", "object %u (key %d) at position %llu where object %u (key %d) is due", id, M[id].key, (unsigned long long)n, want, M[want].key);
		if (prev) CHECK(O_MEM | extra, i->prev == prev, "wrong-prev", "the prev link of position %llu is wrong", (unsigned long long)n);
		prev = i; ++n; want = M[id].next;
	}
	CHECK(O_MEM | extra, n == L[x].n, "sequence-too-short", "following next the list has %llu objects of %llu", (unsigned long long)n, (unsigned long long)L[x].n);
	if (L[x].n) CHECK(O_MEM | extra, s_list_head(L[x].l)->prev == prev, "wrong-prev", "the prev link of the head is not the tail");
	BEGIN(); c = s_list_count(L[x].l); END();
	CHECK(O_MEM | extra, c == L[x].n, "wrong-count", "count is %llu instead of %llu", (unsigned long long)c, (unsigned long long)L[x].n);
	ends_check(x);
	mon_stat("sequence_walks", 1); mon_stat("links_checked", 2 * n);
}
static void do_insert(int x, int tail, int32_t key)
{
	uint32_t id; struct lobj* u; int used;
	if (mfree && M[mfree].next && chance(30)) { id = M[mfree].next; M[mfree].next = M[id].next; }
	else if (mfree) { id = mfree; mfree = M[id].next; } else if (mnext <= mcap) id = mnext++; else return;
	used = stale && !obj_free && M[id].u;
	if (obj_free || !M[id].u) { u = obj_free ? (struct lobj*)malloc(sizeof(*u)) : place(id); REQUIRE(u); M[id].u = u; }
	u = M[id].u;
	if (used) ; else if (Y.bare) mon_garbage(&u->n, sizeof(u->n)); else mon_garbage(u, sizeof(*u));
	if (!Y.bare) { u->pre = PRE(id); u->post = POST(id); }
	M[id].key = key; M[id].inst = (uint8_t)x;
	mon_op(tail ? "insert_tail" : "insert_head", (uint64_t)x, (uint64_t)(int64_t)key, id);
	BEGIN();
	if (tail) s_list_insert_tail(L[x].l, &u->n, data_of(id)); else s_list_insert_head(L[x].l, &u->n, data_of(id));
	END();
	M[id].live = 1;
	M[id].next = M[id].prev = 0;
	if (!L[x].n) L[x].head = L[x].tail = id;
	else if (tail) { M[id].prev = L[x].tail; M[L[x].tail].next = id; L[x].tail = id; }
	else { M[id].next = L[x].head; M[L[x].head].prev = id; L[x].head = id; }
	++L[x].n;
	const_work("insert", x);
	CHECK(O_OBJ | O_MEM, u->n.data == data_of(id), "node-data", "the data field of the node is not the one given");
	obj_check(id);
	mon_res(id);
}
static void model_unlink(int x, uint32_t id)
{
	if (M[id].prev) M[M[id].prev].next = M[id].next; else L[x].head = M[id].next;
	if (M[id].next) M[M[id].next].prev = M[id].prev; else L[x].tail = M[id].prev;
	--L[x].n;
}
static void do_remove(int x, uint32_t id)
{
	tommy_node save; void* got;
	mon_op("remove_existing", (uint64_t)x, id, 0);
	save = M[id].u->n;
	BEGIN(); got = s_list_remove_existing(L[x].l, &M[id].u->n); END();
	CHECK(O_MEM, got == data_of(id), "remove-existing-result", "remove_existing did not return the data of the node");
	CHECK(O_OBJ | O_MEM, MON_IS_MSAN || memcmp(&save, &M[id].u->n, sizeof(save)) == 0, "removed-node-modified", "remove_existing changed the content of the removed node");
	model_unlink(x, id);
	const_work("remove_existing", x);
	obj_release(id);
	M[id].next = mfree; mfree = id;
	mon_res(id);
}
static void do_concat(int x, int y)
{
	uint32_t i;
	mon_op("concat", (uint64_t)x, (uint64_t)y, L[y].n);
	BEGIN(); s_list_concat(L[x].l, L[y].l); END();
	const_work("concat", x);
	if (L[x].n && L[y].n) { mon_stat("concat_both", 1); M[L[x].tail].next = L[y].head; M[L[y].head].prev = L[x].tail; L[x].tail = L[y].tail; }
	else if (L[y].n) { L[x].head = L[y].head; L[x].tail = L[y].tail; mon_stat("concat_first_empty", 1); }
	else mon_stat("concat_second_empty", 1);
	for (i = L[y].head; i; i = M[i].next) M[i].inst = (uint8_t)x;
	L[x].n += L[y].n; L[y].n = 0; L[y].head = L[y].tail = 0;
	mon_garbage(L[y].l, sizeof(tommy_list));
	s_list_init(L[y].l);
	mon_res(L[x].n);
}
static int qs_cmp(const void* a, const void* b)
{
	uint32_t x = *(const uint32_t*)a, y = *(const uint32_t*)b; int r = key_cmp(x, y);
	return r ? r : M[x].ord < M[y].ord ? -1 : 1;
}
/* when the order given by a sort is not being decided: any permutation is fine */
static void adopt(int x, uint64_t n)
{
	tommy_node* i; uint64_t k = 0; uint32_t id, prev = 0, stamp = ++stamp_seq;
	for (i = s_list_head(L[x].l); i; i = i->next) {
		if (!id_of_node(i, &id) || M[id].inst != x || M[id].stamp == stamp || k >= n) { mon_report(O_MEM, "foreign-node", "after a sort a node of the list is not of an object contained, or is there twice, at position %llu", (unsigned long long)k); return; }
		M[id].stamp = stamp; ++k;
		M[id].prev = prev; if (prev) M[prev].next = id; else L[x].head = id;
		prev = id;
	}
	if (k != n) { mon_report(O_MEM, "sequence-too-short", "after a sort the list has %llu objects of %llu", (unsigned long long)k, (unsigned long long)n); return; }
	if (prev) { M[prev].next = 0; L[x].tail = prev; }
}
static void do_sort(int x, int mode, int shift, int walk)
{
	uint32_t* v; uint64_t n = L[x].n, k = 0; uint32_t i; int asc = 1, desc = 1;
	v = (uint32_t*)malloc((size_t)(n + 1) * 4);
	REQUIRE(v);
	C.mode = mode; C.shift = shift;
	for (i = L[x].head; i; i = M[i].next) { M[i].ord = (uint32_t)k; v[k++] = i; }
	for (k = 1; k < n; ++k) { int r = key_cmp(v[k - 1], v[k]); if (r > 0) asc = 0; if (r <= 0) desc = 0; }
	qsort(v, (size_t)n, 4, qs_cmp);
	mon_op("sort", (uint64_t)x, n, (uint64_t)mode * 64 + (uint64_t)shift);
	C.active = 1; C.inst = x; C.calls = 0; C.limit = 200 * (n + 10) + n * n / 8;
	BEGIN(); s_list_sort(L[x].l, cb_cmp); END();
	C.active = 0;
	mon_stat("sorts", 1); mon_stat("sorted_objects", n); mon_stat("comparisons", C.calls);
	mon_max("max_sorted_list", n);
	if (n) {
		double lim = (double)n * log2((double)n) + 2 * (double)n;
		CHECK(O_WORK, (double)C.calls <= lim, "sort-too-many-comparisons", "sorting %llu objects took %llu comparisons (limit %.0f)", (unsigned long long)n, (unsigned long long)C.calls, lim);
		mon_max("max_comparisons_permille_of_limit", (uint64_t)(1000.0 * (double)C.calls / lim));
		if (asc || desc) {
			CHECK(O_WORK, C.calls <= 3 * n, "sort-degenerated", "sorting %llu objects already in %s order took %llu comparisons", (unsigned long long)n, asc ? "ascending" : "descending", (unsigned long long)C.calls);
			mon_stat(asc ? "sorts_of_ordered" : "sorts_of_reversed", 1);
		}
		if (mon_have_steps) {
			CHECK(O_WORK, (double)steps0 <= 40 * lim + 200, "sort-too-many-steps", "sorting %llu objects executed %llu basic blocks", (unsigned long long)n, (unsigned long long)steps0);
			mon_max("max_sort_steps_permille_of_nlogn", (uint64_t)(1000.0 * (double)steps0 / lim));
			if (asc || desc) CHECK(O_WORK, steps0 <= 80 * n + 200, "sort-degenerated", "sorting %llu objects already in order executed %llu basic blocks", (unsigned long long)n, (unsigned long long)steps0);
		}
		for (k = 0; k < n; ++k) { M[v[k]].prev = k ? v[k - 1] : 0; M[v[k]].next = k + 1 < n ? v[k + 1] : 0; }
		L[x].head = v[0]; L[x].tail = v[n - 1];
	}
	if (!(mon_mask & O_ORD)) adopt(x, n);
	if (walk) walk_check(x, O_ORD);
	for (k = 0; k < n && k < 64; ++k) mon_res(v[k]);
	mon_res(n);
	free(v);
}
static void do_foreach(int x, int release)
{
	int arg = (int)(rnd() & 1);
	mon_op(release ? "foreach-free" : "foreach", (uint64_t)x, (uint64_t)arg, 0);
	E.active = 1; E.inst = x; E.stamp = ++stamp_seq; E.n = 0; E.release = release; E.expect = L[x].head; E.arg = &E;
	/* the argument may be anything: also an object of the list, a node, the list, or nothing */
	switch (L[x].head ? rndn(12) : 12) { case 0: E.arg = data_of(L[x].head); break; case 1: E.arg = data_of(M[L[x].head].next ? M[L[x].head].next : L[x].head); break; case 2: E.arg = M[L[x].head].u; break; case 3: E.arg = L[x].l; break; case 4: E.arg = 0; break; default: break; }
	BEGIN();
	if (arg) s_list_foreach_arg(L[x].l, cb_each_arg, E.arg); else s_list_foreach(L[x].l, cb_each);
	END();
	if (mon_have_steps) CHECK(O_COST, steps0 <= 100 + 16 * L[x].n, "foreach-not-linear", "foreach of a list of %llu objects executed %llu basic blocks", (unsigned long long)L[x].n, (unsigned long long)steps0);
	E.active = 0;
	CHECK(O_EACH | O_MEM, E.n == L[x].n, "foreach-missed", "foreach visited %llu of %llu objects", (unsigned long long)E.n, (unsigned long long)L[x].n);
	mon_stat("foreach_visits", E.n);
	if (release) {
		uint32_t i, nx;
		for (i = L[x].head; i; i = nx) { nx = M[i].next; M[i].next = mfree; mfree = i; }
		L[x].n = 0; L[x].head = L[x].tail = 0;
		mon_garbage(L[x].l, sizeof(tommy_list));
		s_list_init(L[x].l);
	}
	mon_res(E.n);
}
static void audit(int x) { uint32_t i; walk_check(x, 0); do_foreach(x, 0); for (i = L[x].head; i; i = M[i].next) obj_check(i); mon_stat("full_audits", 1); }

/* ------------------------------------------------------------------ workloads */
static const char* has(const char* tok) { return strstr(mon_variant, tok); }
static int32_t pattern_key(int pat, uint64_t i, uint64_t n, uint64_t p)
{
	switch (pat) {
	case 0: return (int32_t)i;
	case 1: return (int32_t)(n - i);
	case 2: return (int32_t)rnd();
	case 3: return (int32_t)rndn(p + 1);
	case 4: return (int32_t)(i % (p + 1));
	case 5: return (int32_t)(i < n / 2 ? i : n - i);
	case 6: return (int32_t)((n - i) % (p + 1));
	case 7: return (int32_t)(i / (p + 1));
	case 8: return (int32_t)((n - i) / (p + 1));
	case 9: return (int32_t)(rndn(n + 1) < 2 ? (int32_t)rndn(n + 1) : (int32_t)i);
	case 10: { uint64_t r = i, v = 0; int b; for (b = 0; b < 20; ++b) { v = v * 2 + (r & 1); r >>= 1; } return (int32_t)v; } /* bit reversal: worst for merges */
	case 11: return i & 1 ? (int32_t)i : (int32_t)(i ^ p);
	case 12: return 7;
	default: return chance(50) ? INT32_MIN : chance(50) ? INT32_MAX : 0;
	}
}
#define NPAT 14
static uint64_t edge_len(uint64_t max)
{
	unsigned b = 0; uint64_t m = max, v;
	while (m) { ++b; m >>= 1; }
	if (chance(20)) return mon_size(max);
	if (chance(50)) { v = (uint64_t)1 << rndn(b); v += rndn(5); v = v > 2 ? v - 2 : v; if (v > max) v = max; return v; }
	return rndlog(max);
}
static long exhaustive(void)
{
	/* every sequence of keys of {0..n-1} of each length, sorted in both directions */
	unsigned n, maxn = mon_thorough ? 8 : 7, part = (unsigned)mon_shard; long total = 0;
	for (n = 0; n <= maxn; ++n) {
		uint64_t c = 1, j; unsigned k, base = n ? n : 1;
		if (n == 8) base = 5;
		for (k = 0; k < n; ++k) c *= base;
		for (j = part; j < c; j += (uint64_t)mon_nshards) {
			uint64_t v = j;
			for (k = 0; k < n; ++k) { do_insert(0, 1, (int32_t)(v % base)); v /= base; }
			do_sort(0, (int)(j & 1), 0, 1);
			while (L[0].n) do_remove(0, (j & 2) ? L[0].head : L[0].tail);
			++total;
		}
	}
	mon_stat("sequences_enumerated", (uint64_t)total);
	return total;
}
/* nodes which share the same object, or have none: the nodes are the elements, the object is opaque */
static struct { uintptr_t base; uint64_t k; int* key; uint64_t calls, limit, expect, n; const uint32_t* seq; const uint32_t* obj; int desc, active; } SH;
static void* shared_ptr(uint32_t o) { return o ? (void*)(SH.base + o * 3) : 0; }
static uint32_t shared_obj(const void* p)
{
	uintptr_t d = (uintptr_t)p - SH.base;
	if (p == 0) return 0;
	if (d % 3 || d / 3 == 0 || d / 3 >= SH.k) { mon_report(O_CB | O_EACH, "callback-foreign-object", "a callback was called with something that is not an object of the list (%p)", p); return 0; }
	return (uint32_t)(d / 3);
}
static int shared_cmp(const void* a, const void* b)
{
	int x, y;
	if (!SH.active) mon_report(O_CB, "callback-after-return", "the comparison function was called outside a sort");
	if (++SH.calls > SH.limit) mon_report(O_ALWAYS, "endless-sort", "a sort made %llu comparisons and did not end", (unsigned long long)SH.calls);
	x = SH.key[shared_obj(a)]; y = SH.key[shared_obj(b)];
	return SH.desc ? (x < y) - (x > y) : (x > y) - (x < y);
}
static void shared_each(void* arg, void* obj)
{
	CHECK(O_EACH | O_CB, arg == (void*)&SH, "foreach-wrong-argument", "foreach callback got the wrong argument");
	if (SH.expect >= SH.n) { mon_report(O_EACH | O_MEM, "foreach-visited-twice", "foreach visited more than the %llu nodes", (unsigned long long)SH.n); return; }
	CHECK(O_EACH | O_MEM, shared_ptr(SH.obj[SH.seq[SH.expect]]) == obj, "foreach-order", "foreach got the object %p at position %llu", obj, (unsigned long long)SH.expect);
	++SH.expect;
}
static int shared_qs(const void* a, const void* b)
{
	uint32_t x = *(const uint32_t*)a, y = *(const uint32_t*)b; int i = SH.key[SH.obj[x]], j = SH.key[SH.obj[y]];
	if (i != j) return (i < j ? -1 : 1) * (SH.desc ? -1 : 1);
	return M[x].ord < M[y].ord ? -1 : 1;
}
static void shared_walk(tommy_list* l, tommy_node* nodes, unsigned extra)
{
	tommy_node* i = s_list_head(l); tommy_node* prev = 0; uint64_t k = 0;
	for (; i; i = i->next, ++k) {
		if (k >= SH.n) { mon_report(O_MEM | extra, "sequence-too-long", "following next the list has more nodes than the %llu contained", (unsigned long long)SH.n); return; }
		if (i != &nodes[SH.seq[k]]) { mon_report(O_MEM | extra, "wrong-sequence", "another node at position %llu of a list of nodes sharing objects", (unsigned long long)k); return; }
		CHECK(O_MEM | O_OBJ, i->data == shared_ptr(SH.obj[SH.seq[k]]), "node-data", "the data of the node at position %llu is not the one given", (unsigned long long)k);
		if (prev) CHECK(O_MEM | extra, i->prev == prev, "wrong-prev", "the prev link of position %llu is wrong", (unsigned long long)k);
		prev = i;
	}
	CHECK(O_MEM | extra, k == SH.n, "sequence-too-short", "following next the list has %llu nodes of %llu", (unsigned long long)k, (unsigned long long)SH.n);
	CHECK(O_MEM | extra, s_list_tail(l) == prev, "wrong-tail", "the tail is not the last node");
	CHECK(O_MEM | extra, s_list_count(l) == SH.n, "wrong-count", "count is not %llu", (unsigned long long)SH.n);
	mon_stat("shared_nodes_walked", k);
}
static void shared_case(uint64_t n, uint64_t k)
{
	tommy_node* nodes = (tommy_node*)malloc((size_t)(n + 1) * sizeof(tommy_node));
	uint32_t* seq = (uint32_t*)malloc((size_t)(n + 1) * 4); uint32_t* obj = (uint32_t*)malloc((size_t)(n + 1) * 4);
	int* key = (int*)malloc((size_t)(k + 1) * sizeof(int)); tommy_list l; uint64_t i, p = rndlog(64); int pat = (int)rndn(NPAT), r, tail = chance(70); double lim;
	REQUIRE(nodes && seq && obj && key && n < mcap);
	mon_garbage(nodes, (size_t)(n + 1) * sizeof(tommy_node));
	for (i = 0; i < k; ++i) key[i] = chance(50) ? (int)i : (int)rndn(k);
	SH.base = (uintptr_t)rnd() | 1; if (SH.base > ~(uintptr_t)0 - 3 * k - 3) SH.base = 4096; SH.k = k; SH.key = key; SH.seq = seq; SH.obj = obj; SH.n = n; SH.active = 0;
	s_list_init(&l);
	mon_op("shared", n, k, (uint64_t)pat);
	for (i = 0; i < n; ++i) {
		uint32_t id = (uint32_t)i;
		obj[i] = (uint32_t)((uint32_t)pattern_key(pat, i, n, p) % k);
		seq[tail ? i : n - 1 - i] = id;
		if (tail) s_list_insert_tail(&l, &nodes[i], shared_ptr(obj[i])); else s_list_insert_head(&l, &nodes[i], shared_ptr(obj[i]));
	}
	shared_walk(&l, nodes, 0);
	for (r = 0; r < 3 && SH.n; ++r) {
		n = SH.n;
		for (i = 0; i < n; ++i) M[seq[i]].ord = (uint32_t)i;
		SH.desc = (int)rndn(2);
		qsort(seq, (size_t)n, 4, shared_qs);
		lim = (double)n * log2((double)n) + 2 * (double)n;
		SH.active = 1; SH.calls = 0; SH.limit = 200 * (n + 10) + n * n / 8;
		BEGIN(); s_list_sort(&l, shared_cmp); END();
		SH.active = 0;
		mon_stat("sorts_of_shared", 1);
		CHECK(O_WORK, (double)SH.calls <= lim, "sort-too-many-comparisons", "sorting %llu nodes of %llu objects took %llu comparisons (limit %.0f)", (unsigned long long)n, (unsigned long long)k, (unsigned long long)SH.calls, lim);
		if (mon_have_steps) CHECK(O_WORK, (double)steps0 <= 40 * lim + 200, "sort-too-many-steps", "sorting %llu nodes of %llu objects executed %llu basic blocks", (unsigned long long)n, (unsigned long long)k, (unsigned long long)steps0);
		if (mon_mask & O_ORD) shared_walk(&l, nodes, O_ORD);
		else { /* any permutation */
			tommy_node* x; uint64_t c = 0; uint32_t stamp = ++stamp_seq;
			for (x = s_list_head(&l); x; x = x->next) {
				uint64_t at = (uint64_t)(x - nodes);
				if (c >= n || at >= mcap || M[at].stamp == stamp) { mon_report(O_MEM, "foreign-node", "after a sort a node is not one of the list, or is there twice"); break; }
				M[at].stamp = stamp; seq[c++] = (uint32_t)at;
			}
			shared_walk(&l, nodes, 0);
		}
		SH.expect = 0; BEGIN(); s_list_foreach_arg(&l, shared_each, &SH); END();
		CHECK(O_EACH | O_MEM, SH.expect == n, "foreach-missed", "foreach visited %llu of %llu nodes", (unsigned long long)SH.expect, (unsigned long long)n);
		for (i = 0; i < 8 && SH.n; ++i) {
			uint64_t at = i & 1 ? SH.n - 1 : chance(50) ? 0 : rndn(SH.n); void* got;
			got = s_list_remove_existing(&l, &nodes[seq[at]]);
			CHECK(O_MEM, got == shared_ptr(obj[seq[at]]), "remove-existing-result", "remove_existing did not return the data of the node");
			memmove(seq + at, seq + at + 1, (size_t)(SH.n - at - 1) * 4); --SH.n;
		}
		shared_walk(&l, nodes, 0);
	}
	mon_res(SH.n);
	free(nodes); free(seq); free(obj); free(key);
}
static int run_case(long index)
{
	uint64_t cap, i, n, total = 0, maxlen = 0; int x, y; int big = has("big") || has("huge") || index % 16 == 15; int sorting = has("sort") != 0;
	obj_free = has("free") != 0;
	data_odd = has("aligned") ? 0 : chance(30);
	mon_heap_fill = (unsigned)rndn(4);
	nl = 1 + (int)rndn(NL);
	cap = big ? (uint64_t)(1 << 17) : 600;
	if (has("huge")) cap = (uint64_t)(3000000 * mon_scale);
	mcap = (uint32_t)(cap * 2 + 4096);
	M = (struct lmeta*)calloc((size_t)mcap + 2, sizeof(*M)); REQUIRE(M);
	stale = chance(35);
	nest_begin(rnd(), has("exhaustive") ? 0 : 60, 1 + (unsigned)rndlog(400));
	{ const uintptr_t special[4] = { ~(uintptr_t)0, ~(uintptr_t)1, (uintptr_t)&M, (uintptr_t)mon_report }; uint64_t w = rndn(8); data_xor = has("aligned") ? 0 : w == 0 ? ~(uintptr_t)0 : w == 1 ? (uintptr_t)&M[0] + data_odd : w == 2 ? (uintptr_t)&M[1 + rndn(mcap < 200 ? mcap : 200)] + data_odd : w == 3 ? ((uintptr_t)&M[1 + rndn(mcap < 200 ? mcap : 200)] + data_odd) ^ (special[rndn(4)]) : 0; }
	mnext = 1; mfree = 0; pool = 0;
	mon_layout_init(&Y, index, (uint64_t)mcap + 2);
	if (obj_free) Y.bare = 0;
	else { pool = (char*)malloc(64 + (size_t)mon_slots(&Y) * sizeof(struct lobj)); REQUIRE(pool); }
	for (x = 0; x < nl; ++x) {
		L[x].l = (tommy_list*)malloc(sizeof(tommy_list)); mon_garbage(L[x].l, sizeof(tommy_list));
		s_list_init(L[x].l);
		L[x].head = L[x].tail = 0; L[x].n = 0;
	}
	if (has("exhaustive")) {
		if (index == mon_shard) total = (uint64_t)exhaustive();
		mon_sample("every sequence of keys up to length %d sorted", mon_thorough ? 8 : 7);
	} else {
		if (!has("huge") && (big || chance(15))) { uint64_t len = big ? edge_len(1 << 15) : edge_len(300); shared_case(len, chance(60) ? 1 + rndn(5) : 1 + rndlog(len + 1)); }
		unsigned ops = big ? 8 : 20 + (unsigned)rndn(60), o; char desc[300]; int dl = 0;
		for (o = 0; o < ops; ++o) {
			unsigned c = has("huge") && o == 0 ? 0 : (unsigned)rndn(100);
			x = (int)rndn((uint64_t)nl); y = (int)rndn((uint64_t)nl);
			if (L[x].n > maxlen) maxlen = L[x].n;
			if (sorting ? c < 55 : c < 25) {
				/* build (on top of what is there) and sort */
				int pat = (int)rndn(NPAT), tail = chance(80), shift = chance(60) ? 0 : (int)rndn(31); uint64_t p = rndlog(64);
				n = big ? edge_len(cap) : edge_len(300);
				if (has("huge")) n = cap / 2 + rndn(cap / 2) ;
				if (chance(50)) while (L[x].n) do_remove(x, L[x].head);
				if (L[x].n + n > cap) continue;
				if (has("huge") && o > 1) break;
				for (i = 0; i < n; ++i) do_insert(x, tail, pattern_key(pat, i, n, p));
				if (dl < 250) dl += snprintf(desc + dl, sizeof(desc) - (size_t)dl, " p%d/%llu", pat, (unsigned long long)L[x].n);
				do_sort(x, (int)rndn(12), shift, 1);
				if (chance(30)) do_sort(x, (int)rndn(12), chance(50) ? shift : 0, 1);
			} else if (c < 65) {
				n = big ? 50 + rndlog(2000) : rndlog(40);
				for (i = 0; i < n; ++i) {
					if (chance(55) || !L[x].n) { if (L[x].n < cap) do_insert(x, chance(50), (int32_t)rndn(50)); }
					else {
						uint32_t id = chance(30) ? L[x].head : chance(40) ? L[x].tail : 0;
						if (!id) { uint64_t s = rndn(L[x].n < 300 ? L[x].n : 300); id = chance(50) ? L[x].head : 0; if (id) { while (s--) id = M[id].next; } else { id = L[x].tail; while (s--) id = M[id].prev; } }
						do_remove(x, id);
					}
					if (!big) walk_check(x, 0); else if ((i & 255) == 0) ends_check(x);
				}
			} else if (c < 80) {
				if (x != y && L[x].n + L[y].n <= cap) { do_concat(x, y); walk_check(x, 0); walk_check(y, 0); }
			} else if (c < 88) do_sort(x, (int)rndn(12), chance(60) ? 0 : (int)rndn(31), 1);
			else if (c < 92) do_foreach(x, 1);
			else if (c < 96) while (L[x].n) { do_remove(x, chance(50) ? L[x].head : L[x].tail); if (!big && chance(10)) walk_check(x, 0); }
			else audit(x);
			total += L[x].n + 1;
			if (L[x].n > maxlen) maxlen = L[x].n;
		}
		for (x = 0; x < nl; ++x) { audit(x); do_foreach(x, 1); ends_check(x); }
		mon_sample("%d lists, %u phases, longest %llu; sorts:%s", nl, ops, (unsigned long long)maxlen, dl ? desc : "");
	}
	for (x = 0; x < nl; ++x) free(L[x].l);
	free(M); free(pool);
	mon_heap_reset();
	return total >= 8;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_list", run_case); }
