/* Histories over ordered trees, compared with a model indexed by rank; depth profile of every object. */
#include "sut.h"
#include "sut_api.h"
#define NEST_GROUP O_CB
#include "nest.h"
#include <limits.h>
#include <math.h>

struct tobj { uint64_t pre; tommy_node n; uint64_t post; };
struct tmeta { int64_t key; struct tobj* u; uint32_t rank, stamp, next, lpos; uint8_t inst, live, pad[6]; };
static struct tmeta* M;
static uint32_t mcap, mnext, mfree;
static int data_odd, obj_free, stale;
static char* pool;
static struct mon_layout Y;
static struct tobj* place(uint32_t id)
{
	if (Y.bare) return (struct tobj*)(pool + 64 + mon_slot(&Y, id) * sizeof(tommy_node) - offsetof(struct tobj, n));
	return (struct tobj*)(pool + 64) + mon_slot(&Y, id);
}
#define PRE(id) (0xA11CE00000000000ULL ^ (uint64_t)(id) * 0x9e3779b97f4aULL)
#define POST(id) (0xB0B0000000000000ULL ^ (uint64_t)(id) * 0xbf58476d1ce4ULL)
#define NT 3
static struct { tommy_tree* t; uint32_t* slot; uint32_t* live; uint64_t n, max; int mode; } T[NT];
static int nt;
static uint64_t K;            /* ranks are 0..K-1 */
static int64_t kbase, kstride;
static uint32_t stamp_seq;
static int64_t key_of(uint64_t rank) { return kbase + (int64_t)rank * kstride; }
struct probe { int64_t key; };
static struct probe P;

static uintptr_t data_xor;      /* data pointers are opaque: they can be any value */
static int id_of_data(const void* data, uint32_t* id)
{
	uintptr_t a = (uintptr_t)data, b = (uintptr_t)M;
	a = (a ^ data_xor) - data_odd;
	if (a < b || a >= b + (uintptr_t)(mcap + 1) * sizeof(*M) || (a - b) % sizeof(*M)) return 0;
	*id = (uint32_t)((a - b) / sizeof(*M));
	return *id >= 1 && *id <= mcap;
}
static void* data_of(uint32_t id) { return (void*)(((uintptr_t)&M[id] + data_odd) ^ data_xor); }

/* ------------------------------------------------------------------ callbacks */
static struct { int active, inst, shift; const void* first; int64_t key; uint64_t calls; int alt; } C;
static int result(int mode, int64_t a, int64_t b)
{
	int r;
	if (mode & 1) { int64_t t = a; a = b; b = t; }
	if (a == b) return 0;
	r = a < b ? -1 : 1;
	switch (mode >> 1) {
	case 0: return r;
	case 1: return r < 0 ? INT_MIN : INT_MAX;
	case 2: return r * (int)(1 + (((uint64_t)a * 31 + (uint64_t)b * 7) & 0xfffff));
	case 3: return r * 0x10000;
	case 4: return r * (int)(1 + (mon_dict[((uint64_t)a ^ (uint64_t)b) % 61 % (uint64_t)(mon_ndict ? mon_ndict : 1)] & 0x3fffffff));
	default: { int64_t d = a / 2 - b / 2; return d == 0 ? r : d < INT_MIN ? INT_MIN : d > INT_MAX ? INT_MAX : (int)d; }
	}
}
static int cb_cmp_any(const void* a, const void* b, int alt)
{
	uint32_t y = 0;
	if (!C.active) { mon_report(O_CB, "callback-after-return", "the comparison function was called by an operation that does not compare, or after it returned"); return 0; }
	if (++C.calls > 4000000) mon_report(O_ALWAYS, "endless-operation", "a tree operation made 4000000 comparisons and did not end");
	CHECK(O_CB | (C.alt ? O_MEM : 0), alt == C.alt, "callback-wrong-function", "the comparison function of the tree was called in place of the given one or the opposite");
	CHECK(O_CB, a == C.first, "callback-wrong-argument", "the comparison function was called with %p as first argument, the searched element is %p", a, C.first);
	if (!id_of_data(b, &y) || !M[y].live || M[y].inst != C.inst) { mon_report(O_CB, "callback-foreign-object", "the comparison function was called with something that is not an object of the tree (%p)", b); return 0; }
	nest_maybe();
	return result(T[C.inst].mode, C.key >> C.shift, M[y].key >> C.shift);
}
static int cb_cmp(const void* a, const void* b) { return cb_cmp_any(a, b, 0); }
static int cb_cmp_alt(const void* a, const void* b) { return cb_cmp_any(a, b, 1); }
static struct { int active, inst, release; void* arg; uint32_t stamp; int64_t last; uint64_t n; } E;
static void obj_check(uint32_t id)
{
	if (!Y.bare) CHECK(O_OBJ, M[id].u->pre == PRE(id) && M[id].u->post == POST(id), "object-bytes-modified", "bytes of the object outside its node were modified (id %u)", id);
	CHECK(O_OBJ, M[id].u->n.data == data_of(id), "node-data", "the data field of a contained node is not the one given at insertion (id %u)", id);
}
static void obj_release(uint32_t id)
{
	if (!Y.bare) CHECK(O_OBJ, M[id].u->pre == PRE(id) && M[id].u->post == POST(id), "object-bytes-modified", "bytes of the object outside its node were modified (id %u)", id);
	M[id].live = 0;
	if (obj_free) { free(M[id].u); M[id].u = 0; } else if (!stale) mon_garbage(&M[id].u->n, sizeof(tommy_node));
}
static void each(void* arg, void* obj, int with_arg)
{
	uint32_t id = 0;
	if (!E.active) mon_report(O_CB | O_EACH, "foreach-after-return", "a foreach callback was called after the operation returned");
	if (with_arg) CHECK(O_EACH | O_CB, arg == E.arg, "foreach-wrong-argument", "foreach callback got the wrong argument");
	if (!id_of_data(obj, &id) || !M[id].live || M[id].inst != E.inst) { mon_report(O_EACH | O_MEM, "foreach-foreign-object", "foreach visited something that is not an object of the tree (%p)", obj); return; }
	if (M[id].stamp == E.stamp) { mon_report(O_EACH | O_MEM, "foreach-visited-twice", "foreach visited an object twice (id %u)", id); return; }
	if (E.n) CHECK(O_EACH | O_MEM, result(T[E.inst].mode, E.last, M[id].key) < 0, "foreach-order", "foreach visited key %lld after key %lld", (long long)M[id].key, (long long)E.last);
	M[id].stamp = E.stamp; ++E.n; E.last = M[id].key;
	if (E.release) obj_release(id);
}
static void cb_each(void* obj) { each(0, obj, 0); }
static void cb_each_arg(void* arg, void* obj) { each(arg, obj, 1); }

/* ------------------------------------------------------------------ operations */
static uint64_t steps0;
#define BEGIN() do { mon_heap_forbid = (mon_mask & O_HEAP) != 0; mon_budget(200000000); steps0 = mon_steps; } while (0)
#define END() do { steps0 = mon_steps - steps0; mon_op_end(); mon_heap_forbid = 0; } while (0)
#define CB(x, f, k, sh, al) do { C.active = 1; C.inst = (x); C.first = (f); C.key = (k); C.shift = (sh); C.alt = (al); C.calls = 0; } while (0)
static double logb_of(uint64_t n) { return 1.4405 * log2((double)n + 2); }
static void cost_check(const char* op, int x, uint64_t n, int slack)
{
	/* a change may look for the place first */
	double lim = (op[0] == 's' ? 1 : 2) * (logb_of(n) + slack);
	CHECK(O_BAL, (double)C.calls <= lim, "too-deep", "%s in a tree of %llu objects made %llu comparisons (limit %.2f)", op, (unsigned long long)n, (unsigned long long)C.calls, lim);
	if (n > 1000) mon_max("max_comparisons", C.calls);
	if (mon_have_steps) {
		/* a removal joins two subtrees at each level it goes through: its cost is quadratic in the height, never in n */
		double h = logb_of(n), slim = op[0] == 'r' ? 40 * h * h + 300 : 80 * h + 200;
		CHECK(O_BAL, (double)steps0 <= slim, "too-many-steps", "%s in a tree of %llu objects executed %llu basic blocks", op, (unsigned long long)n, (unsigned long long)steps0);
		mon_max("max_steps_permille_of_limit", (uint64_t)(1000.0 * (double)steps0 / slim));
	}
	(void)x;
}
static void count_check(int x)
{
	uint64_t c, u;
	BEGIN(); c = s_tree_count(T[x].t); u = s_tree_memory_usage(T[x].t); END();
	if (mon_have_steps) { mon_max("max_steps_count_usage", steps0); mon_stat("cost_checks", 1); CHECK(O_COST, steps0 <= 40, "not-constant", "count and memory usage of a tree of %llu objects executed %llu basic blocks", (unsigned long long)T[x].n, (unsigned long long)steps0); }
	CHECK(O_MEM, c == T[x].n, "wrong-count", "count is %llu instead of %llu", (unsigned long long)c, (unsigned long long)T[x].n);
	CHECK(O_USE, u == T[x].n * sizeof(tommy_node), "wrong-memory-usage", "a tree of %llu objects reports %llu bytes", (unsigned long long)T[x].n, (unsigned long long)u);
	mon_stat("usage_checks", 1);
	mon_res(u / sizeof(void*));
}
static void do_insert(int x, uint64_t rank)
{
	uint32_t id, have = T[x].slot[rank]; struct tobj* u; void* got; int used;
	if (have && chance(40)) {
		/* the very same object again */
		mon_op("insert-same", (uint64_t)x, rank, have);
		CB(x, data_of(have), M[have].key, 0, 0);
		BEGIN(); got = s_tree_insert(T[x].t, &M[have].u->n, data_of(have)); END();
		C.active = 0;
		CHECK(O_MEM, got == data_of(have), "insert-result", "inserting an object already in the tree did not return it");
		mon_stat("insert_same", 1);
		cost_check("insert", x, T[x].n, 1);
		mon_res(have);
		return;
	}
	if (mfree) { id = mfree; mfree = M[id].next; } else if (mnext <= mcap) id = mnext++; else return;
	used = stale && !obj_free && M[id].u;
	if (obj_free || !M[id].u) { u = obj_free ? (struct tobj*)malloc(sizeof(*u)) : place(id); REQUIRE(u); M[id].u = u; }
	u = M[id].u;
	if (used) ; else if (Y.bare) mon_garbage(&u->n, sizeof(u->n)); else mon_garbage(u, sizeof(*u));
	if (!Y.bare) { u->pre = PRE(id); u->post = POST(id); }
	M[id].key = key_of(rank); M[id].rank = (uint32_t)rank; M[id].inst = (uint8_t)x; M[id].live = 0;
	mon_op(have ? "insert-dup" : "insert", (uint64_t)x, rank, id);
	CB(x, data_of(id), M[id].key, 0, 0);
	BEGIN(); got = s_tree_insert(T[x].t, &u->n, data_of(id)); END();
	C.active = 0;
	cost_check("insert", x, T[x].n, 1);
	if (have) {
		uint32_t g = 0;
		id_of_data(got, &g);
		CHECK(O_MEM, got == data_of(have), "insert-result", "inserting an equal object returned %p (id %u) instead of the contained one (id %u)", got, g, have);
		mon_stat("insert_duplicate", 1);
		obj_release(id); /* not linked: it can be released at once */
		M[id].next = mfree; mfree = id;
	} else {
		CHECK(O_MEM, got == data_of(id), "insert-result", "inserting a new object returned %p instead of the object", got);
		M[id].live = 1;
		T[x].slot[rank] = id;
		M[id].lpos = (uint32_t)T[x].n; T[x].live[T[x].n++] = id;
		if (T[x].n > T[x].max) T[x].max = T[x].n;
		obj_check(id);
	}
	mon_res(have);
}
static void lookup_check(int x, const char* op, uint64_t rank, void* got, uint32_t want)
{
	uint32_t g = 0;
	if (got == (want ? data_of(want) : 0)) return;
	if (!got) mon_report(O_MEM, "lost-object", "%s of key %lld found nothing, object %u is contained", op, (long long)key_of(rank), want);
	id_of_data(got, &g);
	mon_report(O_MEM, want ? "wrong-object" : "phantom-object", "%s of key %lld returned %p (id %u) instead of id %u", op, (long long)key_of(rank), got, g, want);
	(void)x;
}
static void do_search(int x, uint64_t rank)
{
	uint32_t want = T[x].slot[rank]; void* got;
	P.key = key_of(rank);
	mon_op("search", (uint64_t)x, rank, want);
	CB(x, &P, P.key, 0, 0);
	BEGIN(); got = s_tree_search(T[x].t, &P); END();
	C.active = 0;
	lookup_check(x, "search", rank, got, want);
	cost_check("search", x, T[x].n, 0);
	mon_stat(want ? "search_hit" : "search_miss", 1);
	mon_res(want);
}
/* the argument of a callback may be anything: also an object of the tree, the tree, or nothing */
static void* any_arg(int x, void* def)
{
	uint64_t w = rndn(12); uint32_t i;
	if (w >= 4 || !T[x].n) return def;
	if (w == 3) return rndn(2) ? T[x].t : 0;
	/* from the outside one can tell objects near the root only by chance */
	i = T[x].live[rndn(T[x].n < 5 || rndn(2) ? T[x].n : 5)];
	return w == 2 ? (void*)M[i].u : data_of(i);
}
static void do_search_compare(int x, uint64_t rank)
{
	/* a coarser order: any object with the same high part */
	int sh = chance(40) ? 0 : (int)rndn(24); uint32_t g = 0; void* got; void* arg; int any = 0; int64_t k;
	static struct probe Q;
	Q.key = key_of(rank);
	mon_op("search_compare", (uint64_t)x, rank, (uint64_t)sh);
	arg = any_arg(x, &Q);
	CB(x, arg, Q.key, sh, 1);
	BEGIN(); got = s_tree_search_compare(T[x].t, cb_cmp_alt, arg); END();
	C.active = 0;
	k = Q.key >> sh;
	if (got) {
		if (!id_of_data(got, &g) || !M[g].live || M[g].inst != x) mon_report(O_MEM, "phantom-object", "search_compare returned %p which is not a contained object", got);
		CHECK(O_MEM, M[g].key >> sh == k, "wrong-object", "search_compare returned an object that is not equal under the given function");
	} else {
		/* there must be none: look around the rank, classes are intervals of ranks */
		uint64_t r;
		for (r = rank; r < K && key_of(r) >> sh == k; ++r) if (T[x].slot[r]) { any = 1; break; }
		if (!any) for (r = rank; r-- > 0 && key_of(r) >> sh == k; ) if (T[x].slot[r]) { any = 1; break; }
		CHECK(O_MEM, !any, "lost-object", "search_compare found nothing, but an equal object is contained");
	}
	cost_check("search_compare", x, T[x].n, 0);
	mon_stat(got ? "search_compare_hit" : "search_compare_miss", 1);
	mon_res(sh == 0 ? g : got != 0);
}
static void removed(int x, uint32_t id)
{
	uint32_t last;
	T[x].slot[M[id].rank] = 0;
	last = T[x].live[--T[x].n]; T[x].live[M[id].lpos] = last; M[last].lpos = M[id].lpos;
	obj_release(id);
	M[id].next = mfree; mfree = id;
}
static void do_remove(int x, uint64_t rank, int existing)
{
	uint32_t want = T[x].slot[rank]; void* got; uint64_t n = T[x].n;
	if (existing && !want) return;
	mon_op(existing ? "remove_existing" : "remove", (uint64_t)x, rank, want);
	P.key = key_of(rank);
	if (existing) CB(x, data_of(want), P.key, 0, 0); else CB(x, &P, P.key, 0, 0);
	BEGIN();
	got = existing ? s_tree_remove_existing(T[x].t, &M[want].u->n) : s_tree_remove(T[x].t, &P);
	END();
	C.active = 0;
	lookup_check(x, existing ? "remove_existing" : "remove", rank, got, want);
	cost_check("remove", x, n, 0);
	mon_stat(want ? "remove_hit" : "remove_miss", 1);
	if (want) removed(x, want);
	mon_res(want);
}
static void do_foreach(int x, int release)
{
	int arg = (int)(rnd() & 1); uint64_t i;
	mon_op(release ? "foreach-free" : "foreach", (uint64_t)x, (uint64_t)arg, 0);
	E.active = 1; E.inst = x; E.stamp = ++stamp_seq; E.n = 0; E.release = release; E.arg = any_arg(x, &E);
	BEGIN();
	mon_budget(4000000000ULL);
	if (arg) s_tree_foreach_arg(T[x].t, cb_each_arg, E.arg); else s_tree_foreach(T[x].t, cb_each);
	END();
	if (mon_have_steps) CHECK(O_COST, steps0 <= 100 + 16 * T[x].n, "foreach-not-linear", "foreach of a tree of %llu objects executed %llu basic blocks", (unsigned long long)T[x].n, (unsigned long long)steps0);
	E.active = 0;
	CHECK(O_EACH | O_MEM, E.n == T[x].n, "foreach-missed", "foreach visited %llu of %llu objects", (unsigned long long)E.n, (unsigned long long)T[x].n);
	mon_stat("foreach_visits", E.n);
	if (release) {
		for (i = 0; i < T[x].n; ++i) { uint32_t id = T[x].live[i]; T[x].slot[M[id].rank] = 0; M[id].next = mfree; mfree = id; }
		T[x].n = 0;
		mon_garbage(T[x].t, sizeof(tommy_tree));
		s_tree_init(T[x].t, cb_cmp);
	}
	mon_res(E.n);
}
/* the depth of every object, in order, determines the shape */
static unsigned char* D; static uint64_t DN; static int unparsable;
static int shape(uint64_t lo, uint64_t hi, unsigned d, int x)
{
	uint64_t i, r = hi; int l, g;
	if (lo == hi) return 0;
	for (i = lo; i < hi; ++i) { if (D[i] == d) { if (r != hi) { unparsable = 1; return 0; } r = i; } else if (D[i] < d) { unparsable = 1; return 0; } }
	if (r == hi) { unparsable = 1; return 0; }
	l = shape(lo, r, d + 1, x); g = shape(r + 1, hi, d + 1, x);
	if (unparsable) return 0;
	CHECK(O_BAL, l - g <= 1 && g - l <= 1, "not-balanced", "in a tree of %llu objects a node has subtrees of heights %d and %d (node at depth %u, ranks %llu..%llu)",
		(unsigned long long)T[x].n, l, g, d, (unsigned long long)lo, (unsigned long long)hi);
	return 1 + (l > g ? l : g);
}
static void shape_check(int x)
{
	uint64_t r; int h; uint64_t sig = 0;
	D = (unsigned char*)malloc((size_t)T[x].n + 1); REQUIRE(D); DN = 0; unparsable = 0;
	for (r = 0; r < K; ++r) {
		uint64_t q = T[x].mode & 1 ? K - 1 - r : r; uint32_t id = T[x].slot[q]; void* got;
		if (!id) continue;
		P.key = M[id].key;
		CB(x, &P, P.key, 0, 0);
		BEGIN(); got = s_tree_search(T[x].t, &P); END();
		C.active = 0;
		lookup_check(x, "search", q, got, id);
		cost_check("search", x, T[x].n, 0);
		D[DN++] = (unsigned char)(C.calls > 250 ? 250 : C.calls);
		sig = sig * 1099511628211ULL + C.calls;
	}
	h = shape(0, DN, 1, x);
	if (unparsable) mon_stat("shapes_not_reconstructed", 1);
	else { mon_stat("shapes_checked", 1); mon_max("max_height", (uint64_t)h); if (DN > 100) mon_max("max_height_permille_of_limit", (uint64_t)(1000.0 * h / logb_of(DN))); }
	mon_sig = mon_sig * 31 + sig;
	free(D);
}
static void audit(int x)
{
	uint64_t i;
	count_check(x);
	do_foreach(x, 0);
	shape_check(x);
	for (i = 0; i < T[x].n; ++i) obj_check(T[x].live[i]);
	mon_stat("full_audits", 1);
}

/* ------------------------------------------------------------------ workloads */
static const char* has(const char* tok) { return strstr(mon_variant, tok); }
static uint64_t seqpos;
static uint64_t bitrev(uint64_t v) { uint64_t r = 0, b = 1; while (b < K) { r = r * 2 + (v & 1); v >>= 1; b *= 2; } return r % K; }
static uint64_t pick_rank(int pat)
{
	uint64_t i = seqpos++;
	switch (pat) {
	case 0: return i % K;
	case 1: return K - 1 - i % K;
	case 2: return rndn(K);
	case 3: return i & 1 ? K - 1 - (i / 2) % K : (i / 2) % K;
	case 4: return bitrev(i % K);
	case 5: return (i * 7919) % K;
	case 6: return (K / 2 + (i & 1 ? i / 2 : K - i / 2 % K)) % K;
	default: { uint64_t r = rndlog(K - 1); return r; }
	}
}
/* next contained rank from a point, upwards or downwards */
static uint64_t near_rank(int x, uint64_t r, int up)
{
	uint64_t s;
	for (s = 0; s < K; ++s) {
		uint64_t q = up ? (r + s) % K : (r + K - s % K) % K;
		if (T[x].slot[q]) return q;
		if (s > 64 && s > K / (T[x].n + 1)) break; /* sparse: do not scan everything, every time */
	}
	return T[x].n ? M[T[x].live[up ? 0 : T[x].n - 1]].rank : r;
}
static long exhaustive(void)
{
	/* every order of insertion, followed by the removal of each subset prefix in every rotation: up to maxn objects */
	unsigned n, maxn = mon_thorough ? 8 : 7; long total = 0; uint64_t c, j; unsigned k;
	for (n = 1; n <= maxn; ++n) {
		for (c = 1, k = 2; k <= n; ++k) c *= k;
		for (j = (uint64_t)mon_shard; j < c; j += (uint64_t)mon_nshards) {
			unsigned p[12], q[12]; uint64_t v = j; unsigned i, z; uint64_t w = mix64(j, n);
			for (i = 0; i < n; ++i) p[i] = i;
			for (i = n; i > 1; --i) { z = (unsigned)(v % i); v /= i; k = p[i - 1]; p[i - 1] = p[z]; p[z] = k; }
			for (i = 0; i < n; ++i) { do_insert(0, p[i]); if (mon_mask & O_BAL) shape_check(0); }
			audit(0);
			for (i = 0; i < n; ++i) q[i] = i;
			for (i = n; i > 1; --i) { z = (unsigned)(w % i); w = w / i + 12345; k = q[i - 1]; q[i - 1] = q[z]; q[z] = k; }
			for (i = 0; i < n; ++i) { do_remove(0, q[i], (int)(i & 1)); shape_check(0); }
			count_check(0);
			++total;
		}
	}
	mon_stat("orders_enumerated", (uint64_t)total);
	return total;
}
static int run_case(long index)
{
	int x, big, i; unsigned phases, ph; uint64_t total = 0, n; char desc[300]; int dl = 0;
	obj_free = has("free") != 0;
	data_odd = has("aligned") ? 0 : chance(30);
	mon_heap_fill = (unsigned)rndn(4);
	nt = 1 + (int)rndn(NT);
	big = has("big") || has("huge") || index % 20 == 19;
	K = chance(15) && !has("huge") && !(index % 20 == 19) ? 1 + mon_size(1500) : has("huge") ? (uint64_t)(1500000 * mon_scale) : big ? 20000 + rndn(100000) : 1 + rndlog(chance(50) ? 1500 : 100);
	if (has("exhaustive")) { K = 10; nt = 1; }
	if (big) nt = 1 + (int)rndn(2);
	kbase = chance(40) ? 0 : chance(50) ? -(int64_t)(K / 2) : chance(50) ? INT64_MIN : (int64_t)(rnd() >> 2);
	kstride = chance(60) ? 1 : chance(30) ? 1 + (int64_t)mon_size(1 << 20) : 1 + (int64_t)rndlog(1 << 20);
	if (kbase > INT64_MAX / 2 - (int64_t)K * kstride) kbase = 0;
	mcap = (uint32_t)(K * (uint64_t)nt + 64);
	M = (struct tmeta*)calloc((size_t)mcap + 2, sizeof(*M)); REQUIRE(M);
	stale = chance(35);
	nest_begin(rnd(), has("exhaustive") ? 0 : 60, 1 + (unsigned)rndlog(2000));
	{ const uintptr_t special[4] = { ~(uintptr_t)0, ~(uintptr_t)1, (uintptr_t)&T[0], (uintptr_t)mon_report }; uint64_t w = rndn(8); data_xor = has("aligned") ? 0 : w == 0 ? ~(uintptr_t)0 : w == 1 ? (uintptr_t)&M[0] + data_odd : w == 3 ? ((uintptr_t)&M[1 + rndn(mcap < 200 ? mcap : 200)] + data_odd) ^ (special[rndn(4)]) : 0; }
	mnext = 1; mfree = 0; pool = 0;
	mon_layout_init(&Y, index, (uint64_t)mcap + 2);
	if (obj_free) Y.bare = 0;
	else { pool = (char*)malloc(64 + (size_t)mon_slots(&Y) * sizeof(struct tobj)); REQUIRE(pool); }
	for (x = 0; x < nt; ++x) {
		T[x].t = (tommy_tree*)malloc(sizeof(tommy_tree)); mon_garbage(T[x].t, sizeof(tommy_tree));
		T[x].slot = (uint32_t*)calloc((size_t)K + 1, 4); T[x].live = (uint32_t*)malloc(((size_t)K + 1) * 4);
		REQUIRE(T[x].slot && T[x].live);
		T[x].n = T[x].max = 0; T[x].mode = (int)rndn(12);
		s_tree_init(T[x].t, cb_cmp);
		count_check(x);
	}
	if (has("exhaustive")) {
		if (index == mon_shard) total = (uint64_t)exhaustive();
		mon_sample("every insertion order of up to %d objects, each emptied in a pseudo random order", mon_thorough ? 8 : 7);
	} else {
		phases = big ? 3 + (unsigned)rndn(4) : 3 + (unsigned)rndn(12);
		for (ph = 0; ph < phases; ++ph) {
			int pat = (int)rndn(8), kind = ph == 0 ? 0 : (int)rndn(8), dir = (int)rndn(2);
			x = (int)rndn((uint64_t)nt);
			seqpos = rndn(K);
			if (dl < 260) dl += snprintf(desc + dl, sizeof(desc) - (size_t)dl, " %c%d/%d", "GRMEWDFC"[kind], pat, x);
			n = big ? rndn(K * 2) : rndlog(K * 3);
			switch (kind) {
			case 0: /* insertions */
				while (n--) { do_insert(x, pick_rank(pat)); if (!big && (chance(10) || T[x].n < 12)) { count_check(x); shape_check(x); } }
				break;
			case 1: /* removals in a pattern */
				while (n--) { uint64_t r = pick_rank(pat); if (chance(90) && T[x].n && (!big || chance(50))) r = near_rank(x, r, dir); do_remove(x, r, (int)rndn(2)); if (!big && (chance(10) || T[x].n < 12)) { count_check(x); shape_check(x); } }
				break;
			case 2: { /* mixed */
				uint64_t wi = 1 + rndn(10), wr = 1 + rndn(10), ws = rndn(10);
				if (!big) n += 50;
				while (n--) {
					uint64_t w = rndn(wi + wr + ws), r = pick_rank(pat); int y = (int)rndn((uint64_t)nt);
					if (chance(40) && T[y].n) r = M[T[y].live[rndn(T[y].n)]].rank;
					if (w < wi) do_insert(y, r); else if (w < wi + wr) do_remove(y, r, (int)rndn(2)); else if (chance(60)) do_search(y, r); else do_search_compare(y, r);
					if (!big && chance(4)) shape_check(y);
				}
				break; }
			case 3: /* from one end */
				n = T[x].n ? rndn(T[x].n + 1) : 0;
				{ uint64_t r = dir ? 0 : K - 1; while (n--) { r = near_rank(x, r, dir); do_remove(x, r, (int)rndn(2)); if (!big && chance(20)) shape_check(x); } }
				break;
			case 4: /* sliding window */
				{ uint64_t lo = 0, hi = 0, w = 1 + rndlog(K / 2 + 1); while (T[x].n) do_remove(x, M[T[x].live[T[x].n - 1]].rank, 1);
				for (i = 0; (uint64_t)i < (big ? K : K * 2); ++i) { do_insert(x, dir ? hi : K - 1 - hi); hi = (hi + 1) % K; if (T[x].n > w) { do_remove(x, dir ? lo : K - 1 - lo, (int)rndn(2)); lo = (lo + 1) % K; } if (!big && chance(10)) shape_check(x); } }
				break;
			case 5: /* remove a dense range: whole subtrees disappear */
				if (T[x].n) { uint64_t a = rndn(K), len = rndlog(K), r; for (r = a; r < K && r < a + len; ++r) { do_remove(x, r, 0); if (!big && chance(20)) shape_check(x); } }
				break;
			case 6: do_foreach(x, 1); break;
			default: { uint64_t s = big ? 3000 : 60; while (s--) { do_search(x, rndn(K)); do_search_compare(x, rndn(K)); } }
			}
			if (!big || ph + 1 == phases || chance(30)) audit(x);
			total += T[x].n;
		}
		for (x = 0; x < nt; ++x) {
			audit(x);
			if (chance(50)) { seqpos = 0; while (T[x].n) { do_remove(x, M[T[x].live[rndn(T[x].n)]].rank, (int)rndn(2)); if (!big && chance(10)) shape_check(x); } }
			else do_foreach(x, 1);
			count_check(x);
			mon_max("max_objects", T[x].max);
		}
		mon_sample("%d trees over %llu ranks;%s", nt, (unsigned long long)K, desc);
	}
	for (x = 0; x < nt; ++x) { free(T[x].t); free(T[x].slot); free(T[x].live); }
	free(M); free(pool);
	mon_heap_reset();
	return total >= 4;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_tree", run_case); }
