/* Histories over the five multimaps (fixed, dynamic and linear hash table, trie, in-place trie), each operation
 * compared at the call boundary with an independent model. */
#include "sut.h"
#include "sut_api.h"
#include <limits.h>

enum { HT, HD, HL, TR, TI, NKIND };
static const char* kname[NKIND] = { "hashtable", "hashdyn", "hashlin", "trie", "trie_inplace" };
#define IS_HASH(k) ((k) <= HL)

/* key widths and digits, from the public parameters of the headers */
static unsigned width_of(int k) { return IS_HASH(k) ? (strstr(mon_variant, "w32") ? 32 : TOMMY_SIZE_BIT) : k == TR ? TOMMY_TRIE_BIT : TOMMY_TRIE_INPLACE_BIT; }
static unsigned lg(uint64_t v) { unsigned i = 0; while (v >>= 1) ++i; return i; }
static unsigned tr_digit, tr_first, ti_digit, ti_first;
static int tr_redundant = -1;
static void digits(void)
{
	tr_digit = lg(TOMMY_TRIE_TREE_MAX);
	ti_digit = lg(TOMMY_TRIE_INPLACE_TREE_MAX);
#ifdef TOMMY_TRIE_BUCKET_BIT
	tr_first = TOMMY_TRIE_BUCKET_BIT;
#else
	tr_first = TOMMY_TRIE_BIT % tr_digit + tr_digit;
#endif
#ifdef TOMMY_TRIE_INPLACE_BUCKET_BIT
	ti_first = TOMMY_TRIE_INPLACE_BUCKET_BIT;
#else
	ti_first = TOMMY_TRIE_INPLACE_BIT % ti_digit + 3 * ti_digit;
#endif
}

/* ------------------------------------------------------------------ objects */
struct uobj {
	uint64_t pre;
	union { tommy_node n; tommy_trie_inplace_node t; } nd;
	uint64_t post;
};
struct uobj_n { uint64_t pre; tommy_node n; uint64_t post; }; /* same prefix, without the in-place trie node */
struct meta {
	uint64_t key;
	struct uobj* u;
	uint32_t val;
	uint32_t knext, kprev;   /* model: same key, insertion order (id, 0 for none) */
	uint32_t gnext, gprev;   /* model: all of the instance, insertion order */
	uint32_t lpos;           /* position in live[] */
	uint32_t stamp;
	uint8_t live, inst, pad[2];
};
static struct meta* M;          /* ids are 1..mcap */
static uint32_t mcap, mnext, mfree; /* mfree: chain through gnext of recycled ids */
static int data_odd;            /* data pointers need not be aligned */
static int obj_free;            /* allocate every object on its own, and free it on removal */
static char* pool; static size_t pool_stride, pool_used, pool_cap;
static struct mon_layout Y;
#define PRE(id) (0xA11CE00000000000ULL ^ (uint64_t)(id) * 0x9e3779b97f4aULL)
#define POST(id) (0xB0B0000000000000ULL ^ (uint64_t)(id) * 0xbf58476d1ce4ULL)

static uintptr_t data_xor;      /* data pointers are opaque: they can be any value */
static int stale;               /* removed nodes keep what the library left in them, also when they are inserted again */
static int id_of_data(const void* data, uint32_t* id)
{
	uintptr_t a = (uintptr_t)data, b = (uintptr_t)M;
	a = (a ^ data_xor) - data_odd;
	if (a < b || a >= b + (uintptr_t)(mcap + 1) * sizeof(*M) || (a - b) % sizeof(*M)) return 0;
	*id = (uint32_t)((a - b) / sizeof(*M));
	return *id >= 1 && *id <= mcap;
}
static void* data_of(uint32_t id) { return (void*)(((uintptr_t)&M[id] + data_odd) ^ data_xor); }

/* ------------------------------------------------------------------ model */
struct krec { uint64_t key; uint32_t head, tail, n, next; };
struct model {
	uint32_t* hb; size_t hmask;
	struct krec* rec; uint32_t nrec, crec, frec;
	uint64_t count, distinct;
	uint32_t ghead, gtail;
	uint32_t* live; size_t clive;
};
struct inst {
	int kind;
	void* c;               /* container */
	size_t csize;
	tommy_allocator* alloc; int alloc_shared;
	struct model m;
	uint64_t hbytes;       /* heap bytes owned by the container */
	uint64_t ht_buckets;
	uint64_t last_buckets, ops_since_resize; int resized_once;
	uint64_t maxcount;
	uint64_t recent[8];
	int contiguous;        /* the keys are a window of consecutive integers */
	int resizes;
	uint64_t rsteps, nops; /* steps of the operations which resized, and operations */
};
#define MAXI 4
static struct inst I[MAXI];
static int ni;
static tommy_allocator* shared_alloc;

static size_t kh(uint64_t k) { k ^= k >> 31; k *= 0x7fb5d329728ea185ULL; k ^= k >> 27; k *= 0x81dadef4bc2dd44dULL; k ^= k >> 33; return (size_t)k; }
static void model_init(struct model* m)
{
	memset(m, 0, sizeof(*m));
	m->hmask = 63; m->hb = (uint32_t*)calloc(64, 4);
	m->crec = 64; m->rec = (struct krec*)calloc(65, sizeof(struct krec));
	m->clive = 64; m->live = (uint32_t*)malloc(64 * 4);
}
static void model_done(struct model* m) { free(m->hb); free(m->rec); free(m->live); memset(m, 0, sizeof(*m)); }
static struct krec* model_find(struct model* m, uint64_t key)
{
	uint32_t i = m->hb[kh(key) & m->hmask];
	while (i && m->rec[i].key != key) i = m->rec[i].next;
	return i ? &m->rec[i] : 0;
}
static void model_insert(struct inst* in, uint32_t id)
{
	struct model* m = &in->m;
	struct krec* r = model_find(m, M[id].key);
	if (!r) {
		uint32_t i; size_t h;
		if (m->frec) { i = m->frec; m->frec = m->rec[i].next; }
		else {
			if (m->nrec == m->crec) { m->crec *= 2; m->rec = (struct krec*)realloc(m->rec, (m->crec + 1) * sizeof(struct krec)); REQUIRE(m->rec); }
			i = ++m->nrec;
		}
		if (m->distinct > m->hmask) {
			size_t nm = m->hmask * 4 + 3, b; uint32_t* nb = (uint32_t*)calloc(nm + 1, 4);
			REQUIRE(nb);
			for (b = 0; b <= m->hmask; ++b) {
				uint32_t j = m->hb[b];
				while (j) { uint32_t n = m->rec[j].next; size_t p = kh(m->rec[j].key) & nm; m->rec[j].next = nb[p]; nb[p] = j; j = n; }
			}
			free(m->hb); m->hb = nb; m->hmask = nm;
		}
		h = kh(M[id].key) & m->hmask;
		m->rec[i].key = M[id].key; m->rec[i].head = m->rec[i].tail = 0; m->rec[i].n = 0; m->rec[i].next = m->hb[h]; m->hb[h] = i;
		r = &m->rec[i];
		++m->distinct;
	}
	M[id].knext = 0; M[id].kprev = r->tail;
	if (r->tail) M[r->tail].knext = id; else r->head = id;
	r->tail = id; ++r->n;
	M[id].gnext = 0; M[id].gprev = m->gtail;
	if (m->gtail) M[m->gtail].gnext = id; else m->ghead = id;
	m->gtail = id;
	if (m->count == m->clive) { m->clive *= 2; m->live = (uint32_t*)realloc(m->live, m->clive * 4); REQUIRE(m->live); }
	M[id].lpos = (uint32_t)m->count; m->live[m->count++] = id;
	if (m->count > in->maxcount) in->maxcount = m->count;
}
static void model_remove(struct inst* in, uint32_t id)
{
	struct model* m = &in->m;
	struct krec* r = model_find(m, M[id].key);
	uint32_t last;
	REQUIRE(r);
	if (M[id].kprev) M[M[id].kprev].knext = M[id].knext; else r->head = M[id].knext;
	if (M[id].knext) M[M[id].knext].kprev = M[id].kprev; else r->tail = M[id].kprev;
	if (!--r->n) {
		uint32_t* p = &m->hb[kh(M[id].key) & m->hmask], i = (uint32_t)(r - m->rec);
		while (*p != i) p = &m->rec[*p].next;
		*p = r->next; r->next = m->frec; m->frec = i;
		--m->distinct;
	}
	if (M[id].gprev) M[M[id].gprev].gnext = M[id].gnext; else m->ghead = M[id].gnext;
	if (M[id].gnext) M[M[id].gnext].gprev = M[id].gprev; else m->gtail = M[id].gprev;
	last = m->live[--m->count]; m->live[M[id].lpos] = last; M[last].lpos = M[id].lpos;
	in->recent[M[id].key & 7] = M[id].key;
}

/* ------------------------------------------------------------------ key generators */
struct gen { int dist; uint64_t base, k, mask, seq; unsigned s, p; uint64_t last; };
static const char* dname[] = { "dense", "few-keys", "random", "same-low-bits", "boundary", "clustered", "one-bit-apart", "inthash", "strided", "extreme-digits", "inthash64", "fewer-highbits", "constants" };
#define NDIST 13
static void gen_init(struct gen* g, int dist, unsigned width)
{
	memset(g, 0, sizeof(*g));
	g->dist = dist;
	g->mask = width >= 64 ? ~(uint64_t)0 : ((uint64_t)1 << width) - 1;
	switch (rndn(5)) {
	case 0: g->base = 0; break;
	case 1: g->base = (uint64_t)1 << (width - 1); break;
	case 2: g->base = g->mask - rndn(5000); break;
	case 3: g->base = rnd() & g->mask; break;
	default: g->base = (rnd() & g->mask) & ~(uint64_t)0xfff; break;
	}
	g->k = 1 + rndlog(64);
	g->s = 1 + (unsigned)rndn(width - 1);
	g->p = 1 + (unsigned)rndn(width - 1);
	g->last = rnd() & g->mask;
}
static uint64_t gen_key(struct gen* g)
{
	uint64_t v, x;
	unsigned i, w = g->mask == ~(uint64_t)0 ? 64 : lg(g->mask) + 1;
	switch (g->dist) {
	case 0: v = g->base + g->seq++; break;
	case 1: v = g->base + rndn(g->k) * (g->s & 1 ? 1 : (uint64_t)1 << (g->s / 2)); break;
	case 2: v = rnd(); break;
	case 3: v = (g->base & (((uint64_t)1 << g->s) - 1)) | (rnd() << g->s); break;
	case 4:
		x = rndn(w);
		switch (rndn(6)) { case 0: v = 0; break; case 1: v = ~(uint64_t)0; break; case 2: v = (uint64_t)1 << x; break;
		case 3: v = ((uint64_t)1 << x) - 1; break; case 4: v = ~((uint64_t)1 << x); break; default: v = ~(uint64_t)0 << x; }
		break;
	case 5: v = (g->base & ~(((uint64_t)1 << (g->p > 12 ? 12 : g->p)) - 1)) + rndn((uint64_t)1 << (g->p > 12 ? 12 : g->p)); if (chance(2)) g->base = rnd(); break;
	case 6: g->last ^= (uint64_t)1 << rndn(w); v = g->last; if (chance(5)) g->last = rnd(); break;
	case 7: v = s_inthash_u32((uint32_t)(g->base + g->seq++)); break;
	case 8: v = g->base + (g->seq++ << g->s); break;
	case 9: { unsigned d = strstr(mon_variant, "w32") ? 3 : g->s & 1 ? tr_digit : ti_digit; uint64_t m = ((uint64_t)1 << d) - 1; v = g->base & ~(uint64_t)0 << (g->p & 31);
		for (i = 0; i < (g->p & 31); i += d) { uint64_t c = rndn(4); v |= (c == 0 ? 0 : c == 1 ? m : c == 2 ? 1 : rnd() & m) << i; } break; }
	case 10: v = s_inthash_u64(g->base + g->seq++); break;
	case 12: v = mon_word(); break;
	default: v = (rndn(g->k) << (w - 8)) | (g->base & 0xff); break;
	}
	return v & g->mask;
}

/* ------------------------------------------------------------------ callbacks */
struct sarg { uint32_t mode, val, id, magic; };
enum { M_ANY, M_VAL, M_ID, M_NONE };
static struct { int active; int inst; uint64_t key; const struct sarg* arg; const void* given; unsigned calls, matched; } G; /* given: the argument for the library, arg: what it means */
static int nonzero[16] = { 1, -1, INT_MIN, INT_MAX, 256, 0x10000, -65536, 2 }; /* and others for each case */

static int cb_search(const void* arg, const void* obj)
{
	uint32_t id = 0;
	const struct sarg* a = G.arg;
	++G.calls;
	if (!G.active) mon_report(O_CB, "callback-after-return", "the comparison function was called outside any search or remove");
	CHECK(O_CB, arg == G.given, "callback-wrong-argument", "the comparison function was called with %p as first argument instead of %p", arg, G.given);
	if (!id_of_data(obj, &id) || !M[id].live || M[id].inst != G.inst) {
		mon_report(O_CB, "callback-foreign-object", "the comparison function was called with an object not contained (%p, id %u)", obj, id);
		return 1;
	}
	CHECK(O_CB, M[id].key == G.key, "callback-other-hash", "the comparison function was called with an object of hash 0x%llx while searching 0x%llx", (unsigned long long)M[id].key, (unsigned long long)G.key);
	CHECK(O_CB, !G.matched, "callback-after-match", "the comparison function was called again after it returned 0");
	if (a->mode == M_ANY || (a->mode == M_VAL && M[id].val == a->val) || (a->mode == M_ID && id == a->id)) { G.matched = 1; return 0; }
	return nonzero[(id + a->magic) & 15];
}
static struct { int active, inst; uint32_t stamp; uint64_t n; void* arg; int release; } E;
static void obj_release(uint32_t id);
static void each(void* arg, void* obj, int with_arg)
{
	uint32_t id = 0;
	if (!E.active) mon_report(O_CB | O_EACH, "foreach-after-return", "a foreach callback was called after the operation returned");
	if (with_arg) CHECK(O_EACH | O_CB, arg == E.arg, "foreach-wrong-argument", "foreach callback got the wrong argument");
	if (!id_of_data(obj, &id) || !M[id].live || M[id].inst != E.inst) { mon_report(O_EACH, "foreach-foreign-object", "foreach visited an object not contained (%p, id %u)", obj, id); return; }
	if (M[id].stamp == E.stamp) { mon_report(O_EACH, "foreach-visited-twice", "foreach visited an object twice (id %u, key 0x%llx)", id, (unsigned long long)M[id].key); return; }
	M[id].stamp = E.stamp;
	++E.n;
	mon_res(id);
	if (E.release) obj_release(id);
}
static void cb_each(void* obj) { each(0, obj, 0); }
static void cb_each_arg(void* arg, void* obj) { each(arg, obj, 1); }
static uint32_t stamp_seq;

/* ------------------------------------------------------------------ objects */
static struct uobj* obj_new(uint32_t id, int kind)
{
	struct uobj* u = M[id].u;
	size_t n = kind == TI ? sizeof(struct uobj) : sizeof(struct uobj_n);
	int used = stale && u;
	if (obj_free || !u) {
		if (obj_free) u = (struct uobj*)malloc(n);
		else {
			REQUIRE(pool_used < pool_cap);
			u = (struct uobj*)(pool + 64 + pool_stride * mon_slot(&Y, pool_used++) - (Y.bare ? offsetof(struct uobj, nd) : 0));
		}
		REQUIRE(u);
		M[id].u = u;
	}
	/* nodes need no initialization */
	if (Y.bare) {
		if (!used) mon_garbage(&u->nd, kind == TI ? sizeof(tommy_trie_inplace_node) : sizeof(tommy_node));
		return u;
	}
	if (!used) mon_garbage(u, n);
	u->pre = PRE(id);
	if (kind == TI) u->post = POST(id); else ((struct uobj_n*)u)->post = POST(id);
	return u;
}
static void obj_check(uint32_t id, int kind)
{
	struct uobj* u = M[id].u;
	uint64_t post;
	if (Y.bare) return;
	post = kind == TI ? u->post : ((struct uobj_n*)u)->post;
	CHECK(O_OBJ, u->pre == PRE(id) && post == POST(id), "object-bytes-modified", "bytes of the object outside its node were modified (id %u)", id);
}
static void obj_release(uint32_t id)
{
	int kind = I[M[id].inst].kind;
	obj_check(id, kind);
	if (obj_free) { free(M[id].u); M[id].u = 0; }
	else if (stale) ;
	else if (Y.bare) mon_garbage(&M[id].u->nd, kind == TI ? sizeof(tommy_trie_inplace_node) : sizeof(tommy_node));
	else {
		mon_garbage(M[id].u, kind == TI ? sizeof(struct uobj) : sizeof(struct uobj_n));
		M[id].u->pre = PRE(id);
		if (kind == TI) M[id].u->post = POST(id); else ((struct uobj_n*)M[id].u)->post = POST(id);
	}
}
static uint32_t id_new(void)
{
	uint32_t id;
	if (mfree && (chance(70) || mnext > mcap)) { id = mfree; mfree = M[id].gnext; return id; }
	if (mnext <= mcap) return mnext++;
	return 0;
}
static void id_put(uint32_t id) { M[id].gnext = mfree; mfree = id; }

/* ------------------------------------------------------------------ operations */
static uint64_t op_steps;
static uint64_t hb0, he0;
#define BEGIN(in) do { hb0 = H.live_bytes; he0 = mon_heap_events(); mon_budget(400000000); op_steps = mon_steps; } while (0)
#define END(in) do { op_steps = mon_steps - op_steps; mon_op_end(); (in)->hbytes += H.live_bytes - hb0; } while (0)
#define FORBID() (mon_heap_forbid = (mon_mask & O_HEAP) != 0)
#define ALLOW() (mon_heap_forbid = mon_heap_nofree = mon_heap_noalloc = 0)
#define NOALLOC() (mon_heap_noalloc = (mon_mask & O_HEAP) != 0)

static int work_on;            /* bounds on the executed steps are meaningful for this case */
static int sparse_ok;          /* hashes are well spread: bounds on the chains are meaningful */
static uint64_t trie_bound(int kind, uint64_t extra)
{
	unsigned levels = kind == TR ? (TOMMY_TRIE_BIT - tr_first) / tr_digit + 2 : (TOMMY_TRIE_INPLACE_BIT - ti_first) / ti_digit + 2;
	unsigned width = kind == TR ? TOMMY_TRIE_TREE_MAX : TOMMY_TRIE_INPLACE_TREE_MAX;
	return 300 + (uint64_t)levels * (12 * width + 40) + extra;
}
static void work_check(struct inst* in, const char* op, uint64_t chain)
{
	char nm[64];
	if (!mon_have_steps || !work_on) return;
	snprintf(nm, sizeof(nm), "max_steps_%s_%s", kname[in->kind], op);
	mon_max(nm, op_steps);
	if (in->kind == HL && (mon_mask & O_WORK)) {
		/* own chain + the chains of at most a handful of buckets split or merged */
		uint64_t bound = 320 + 12 * chain;
		CHECK(O_WORK, op_steps <= bound, "hashlin-unbounded-work", "%s executed %llu basic blocks (bound %llu) with %llu objects: resize work done in a burst", op,
			(unsigned long long)op_steps, (unsigned long long)bound, (unsigned long long)in->m.count);
	}
	if ((in->kind == TR || in->kind == TI) && (mon_mask & (O_WORK | O_ECON))) {
		uint64_t bound = trie_bound(in->kind, 800);
		CHECK(O_WORK | O_ECON, op_steps <= bound, "trie-unbounded-work", "%s on a %s executed %llu basic blocks (bound %llu) with %llu objects", op, kname[in->kind],
			(unsigned long long)op_steps, (unsigned long long)bound, (unsigned long long)in->m.count);
	}
}
static void cost_check(struct inst* in, const char* op, uint64_t chain);
static uint64_t buckets_of(struct inst* in) { return in->hbytes / sizeof(void*); }
static void size_check(struct inst* in, int grew)
{
	uint64_t b = buckets_of(in), n = in->m.count;
	if (!IS_HASH(in->kind)) return;
	if (in->last_buckets != b) {
		if (in->kind == HT) mon_report(O_SIZE, "hashtable-resized", "the fixed hash table changed size");
		if (in->resized_once) {
			uint64_t min = in->last_buckets / (in->kind == HD ? 12 : 24);
			CHECK(O_SIZE, in->ops_since_resize >= min, "resize-thrashing", "%s resized from %llu to %llu buckets only %llu operations after the previous resize (%llu objects)", kname[in->kind],
				(unsigned long long)in->last_buckets, (unsigned long long)b, (unsigned long long)in->ops_since_resize, (unsigned long long)n);
		}
		in->resized_once = 1; in->ops_since_resize = 0; ++in->resizes;
		mon_stat("resizes", 1);
		in->last_buckets = b;
	}
	++in->ops_since_resize;
	if (in->kind == HD) {
		if (grew) CHECK(O_SIZE, 2 * n <= b, "overloaded", "hashdyn has %llu objects in %llu buckets after an insertion", (unsigned long long)n, (unsigned long long)b);
		CHECK(O_SIZE, b <= 16 || 8 * (n + 2) >= b, "oversized", "hashdyn has %llu buckets for %llu objects", (unsigned long long)b, (unsigned long long)n);
	} else if (in->kind == HL) {
		if (grew) CHECK(O_SIZE, 2 * n <= b, "overloaded", "hashlin has %llu objects in %llu buckets after an insertion", (unsigned long long)n, (unsigned long long)b);
		CHECK(O_SIZE, b <= 64 || 16 * (n + 2) >= b, "oversized", "hashlin has %llu buckets for %llu objects", (unsigned long long)b, (unsigned long long)n);
	}
}
/* without chains to follow the work is constant; the one of the resizes, over the whole life of a table, is in proportion to the operations */
static void cost_check(struct inst* in, const char* op, uint64_t chain)
{
	if (!mon_have_steps) return;
	mon_stat("cost_checks", 1);
	if (!op) { mon_max("max_steps_count_usage_bucket", op_steps); CHECK(O_COST, op_steps <= 160, "not-constant", "count, memory usage or bucket of a %s of %llu objects executed %llu basic blocks", kname[in->kind], (unsigned long long)in->m.count, (unsigned long long)op_steps); return; }
	if (in->kind != HT && in->kind != HD) return;
	++in->nops;
	if (mon_heap_events() == he0) {
		if (!chain) mon_max("max_steps_without_resize", op_steps);
		CHECK(O_COST, op_steps <= 160 + 12 * chain, "not-constant", "%s in a %s of %llu objects executed %llu basic blocks, following a chain of at most %llu", op, kname[in->kind], (unsigned long long)in->m.count, (unsigned long long)op_steps, (unsigned long long)chain);
	} else {
		uint64_t most = 200 + 24 * (buckets_of(in) + in->last_buckets + in->m.count + chain);
		in->rsteps += op_steps - (op_steps > 12 * chain ? 12 * chain : op_steps);
		mon_max("max_permille_of_steps_of_a_resize", op_steps * 1000 / most);
		CHECK(O_COST, op_steps <= most, "resize-not-linear", "%s resized a %s of %llu objects from %llu to %llu buckets executing %llu basic blocks", op, kname[in->kind], (unsigned long long)in->m.count, (unsigned long long)in->last_buckets, (unsigned long long)buckets_of(in), (unsigned long long)op_steps);
		if (in->nops > 64) mon_max("max_resize_steps_per_100_operations", in->rsteps * 100 / in->nops);
		CHECK(O_COST, in->rsteps <= 60 * in->nops + 6000, "resizes-not-amortised", "the resizes of a %s executed %llu basic blocks in %llu operations", kname[in->kind], (unsigned long long)in->rsteps, (unsigned long long)in->nops);
	}
}
static uint64_t count_of(struct inst* in)
{
	switch (in->kind) {
	case HT: return s_hashtable_count((tommy_hashtable*)in->c);
	case HD: return s_hashdyn_count((tommy_hashdyn*)in->c);
	case HL: return s_hashlin_count((tommy_hashlin*)in->c);
	case TR: return s_trie_count((tommy_trie*)in->c);
	default: return s_trie_inplace_count((tommy_trie_inplace*)in->c);
	}
}
static void count_check(struct inst* in)
{
	uint64_t c;
	BEGIN(in); FORBID(); c = count_of(in); ALLOW(); END(in); cost_check(in, 0, 0);
	CHECK(O_MEM, c == in->m.count, "wrong-count", "%s reports %llu objects instead of %llu", kname[in->kind], (unsigned long long)c, (unsigned long long)in->m.count);
}
static uint32_t do_insert(int x, uint64_t key, uint32_t val)
{
	struct inst* in = &I[x];
	uint32_t id = id_new();
	struct uobj* u;
	if (!id) return 0;
	u = obj_new(id, in->kind);
	M[id].key = key; M[id].val = val; M[id].inst = (uint8_t)x;
	mon_op(in->kind == TR || in->kind == TI ? "insert-key" : "insert-hash", (uint64_t)x, key, id);
	BEGIN(in);
	if (in->kind == HT || in->kind == TI) FORBID();
	if (in->kind == HL || in->kind == TR) mon_heap_nofree = (mon_mask & O_HEAP) != 0;
	switch (in->kind) {
	case HT: s_hashtable_insert((tommy_hashtable*)in->c, &u->nd.n, data_of(id), (tommy_hash_t)key); break;
	case HD: s_hashdyn_insert((tommy_hashdyn*)in->c, &u->nd.n, data_of(id), (tommy_hash_t)key); break;
	case HL: s_hashlin_insert((tommy_hashlin*)in->c, &u->nd.n, data_of(id), (tommy_hash_t)key); break;
	case TR: s_trie_insert((tommy_trie*)in->c, &u->nd.n, data_of(id), (tommy_key_t)key); break;
	case TI: s_trie_inplace_insert((tommy_trie_inplace*)in->c, &u->nd.t, data_of(id), (tommy_key_t)key); break;
	}
	ALLOW();
	END(in);
	if (in->kind == HL) CHECK(O_HEAP, mon_heap_events() - he0 <= 1, "hashlin-heap-traffic", "one insertion made %llu heap calls", (unsigned long long)(mon_heap_events() - he0));
	if (in->kind == HD) CHECK(O_HEAP, mon_heap_events() - he0 <= 2, "hashdyn-heap-traffic", "one insertion made %llu heap calls", (unsigned long long)(mon_heap_events() - he0));
	M[id].live = 1;
	model_insert(in, id);
	CHECK(O_OBJ, (in->kind == TI ? u->nd.t.data : u->nd.n.data) == data_of(id), "node-data", "the data field of the node is not the one given at insertion");
	if (obj_free || (id & 7) == 0) obj_check(id, in->kind);
	work_check(in, "insert", 0);
	cost_check(in, "insert", 0);
	size_check(in, 1);
	mon_res(id);
	return id;
}
static uint32_t expect(struct inst* in, uint64_t key, const struct sarg* a)
{
	struct krec* r = model_find(&in->m, key);
	uint32_t i = r ? r->head : 0;
	if (!IS_HASH(in->kind)) return i;
	while (i && !(a->mode == M_ANY || (a->mode == M_VAL && M[i].val == a->val) || (a->mode == M_ID && i == a->id))) i = M[i].knext;
	return i;
}
/* the object returned; when the order is not being decided any matching object is a right one */
static uint32_t result_check(struct inst* in, const char* op, uint64_t key, const struct sarg* a, void* got, uint32_t want)
{
	uint32_t id = 0;
	if (got == (want ? data_of(want) : 0)) return want;
	if (!got) mon_report(O_MEM, "lost-object", "%s of %s 0x%llx found nothing, object %u is contained", op, kname[in->kind], (unsigned long long)key, want);
	if (!id_of_data(got, &id) || !M[id].live || &I[M[id].inst] != in) mon_report(O_MEM, "phantom-object", "%s of %s 0x%llx returned %p which is not a contained object (id %u)", op, kname[in->kind], (unsigned long long)key, got, id);
	if (M[id].key != key) mon_report(O_MEM, "wrong-key", "%s of %s 0x%llx returned an object of key 0x%llx", op, kname[in->kind], (unsigned long long)key, (unsigned long long)M[id].key);
	if (!want) mon_report(O_MEM | O_CB, "wrong-match", "%s of %s 0x%llx returned an object the comparison function does not accept", op, kname[in->kind], (unsigned long long)key);
	if (IS_HASH(in->kind) && ((a->mode == M_VAL && M[id].val != a->val) || (a->mode == M_ID && id != a->id) || a->mode == M_NONE))
		mon_report(O_MEM | O_CB, "wrong-match", "%s of %s 0x%llx returned an object the comparison function does not accept", op, kname[in->kind], (unsigned long long)key);
	if (!(mon_mask & O_ORD)) { mon_stat("other_object_accepted", 1); return id; }
	mon_report(O_ORD, "not-first-inserted", "%s of %s 0x%llx returned object %u, but the first inserted of the matching ones is %u", op, kname[in->kind], (unsigned long long)key, id, want);
	return id;
}
/* the argument of a callback may be anything: also an object, matching or not, a node, the container, or nothing */
static const void* any_arg(struct inst* in, uint64_t key, const void* def)
{
	struct krec* r; uint32_t i; uint64_t w = rndn(16);
	if (w >= 5 || !IS_HASH(in->kind)) return def;
	mon_stat("arguments_of_other_meaning", 1);
	if (w == 4) return rndn(2) ? in->c : 0;
	r = model_find(&in->m, key); i = r ? r->head : 0;
	if (i && w >= 2 && M[i].knext) i = M[i].knext;
	if (!i && in->m.count && !in->contiguous) i = in->m.live[rndn(in->m.count)];
	return !i ? def : w == 3 ? (const void*)M[i].u : data_of(i);
}
static void do_search(int x, uint64_t key, const struct sarg* a)
{
	struct inst* in = &I[x];
	uint32_t want = expect(in, key, a);
	void* got = 0;
	mon_op("search", (uint64_t)x, key, a->mode);
	G.active = 1; G.inst = x; G.key = key; G.arg = a; G.given = any_arg(in, key, a); G.calls = G.matched = 0;
	BEGIN(in);
	FORBID();
	switch (in->kind) {
	case HT: got = s_hashtable_search((tommy_hashtable*)in->c, cb_search, G.given, (tommy_hash_t)key); break;
	case HD: got = s_hashdyn_search((tommy_hashdyn*)in->c, cb_search, G.given, (tommy_hash_t)key); break;
	case HL: got = s_hashlin_search((tommy_hashlin*)in->c, cb_search, G.given, (tommy_hash_t)key); break;
	case TR: got = s_trie_search((tommy_trie*)in->c, (tommy_key_t)key); break;
	case TI: got = s_trie_inplace_search((tommy_trie_inplace*)in->c, (tommy_key_t)key); break;
	}
	ALLOW();
	END(in);
	G.active = 0;
	want = result_check(in, "search", key, a, got, want);
	mon_stat(want ? "search_hit" : "search_miss", 1);
	if (sparse_ok && IS_HASH(in->kind) && in->kind != HT && mon_have_steps) {
		CHECK(O_SIZE, op_steps <= 40 + 24 * 8, "long-search", "a search in a %s of %llu well spread objects executed %llu basic blocks", kname[in->kind], (unsigned long long)in->m.count, (unsigned long long)op_steps);
	}
	work_check(in, "search", 0);
	mon_res(want);
}
static void after_remove(int x, uint32_t id)
{
	struct inst* in = &I[x];
	REQUIRE(M[id].live);
	model_remove(in, id);
	M[id].live = 0;
	obj_release(id);
	id_put(id);
	size_check(in, 0);
}
static void do_remove(int x, uint64_t key, const struct sarg* a)
{
	struct inst* in = &I[x];
	uint32_t want = expect(in, key, a);
	void* got = 0;
	mon_op("remove", (uint64_t)x, key, a->mode);
	G.active = 1; G.inst = x; G.key = key; G.arg = a; G.given = any_arg(in, key, a); G.calls = G.matched = 0;
	BEGIN(in);
	if (in->kind == HT || in->kind == TI || !want) FORBID();
	if (in->kind == HL || in->kind == TR) NOALLOC();
	switch (in->kind) {
	case HT: got = s_hashtable_remove((tommy_hashtable*)in->c, cb_search, G.given, (tommy_hash_t)key); break;
	case HD: got = s_hashdyn_remove((tommy_hashdyn*)in->c, cb_search, G.given, (tommy_hash_t)key); break;
	case HL: got = s_hashlin_remove((tommy_hashlin*)in->c, cb_search, G.given, (tommy_hash_t)key); break;
	case TR: got = s_trie_remove((tommy_trie*)in->c, (tommy_key_t)key); break;
	case TI: got = s_trie_inplace_remove((tommy_trie_inplace*)in->c, (tommy_key_t)key); break;
	}
	ALLOW();
	END(in);
	G.active = 0;
	want = result_check(in, "remove", key, a, got, want);
	work_check(in, want ? "remove" : "remove_miss", 0);
	cost_check(in, "remove", in->m.count);
	mon_stat(want ? "remove_hit" : "remove_miss", 1);
	if (want) {
		if (in->kind == HL) CHECK(O_HEAP, mon_heap_events() - he0 <= 1, "hashlin-heap-traffic", "one removal made %llu heap calls", (unsigned long long)(mon_heap_events() - he0));
		after_remove(x, want);
	}
	mon_res(want);
}
static void do_remove_existing(int x, uint32_t id)
{
	struct inst* in = &I[x];
	struct uobj* u = M[id].u;
	void* got = 0;
	uint32_t g = 0;
	mon_op("remove_existing", (uint64_t)x, M[id].key, id);
	BEGIN(in);
	if (in->kind == HT || in->kind == TI) FORBID();
	if (in->kind == HL || in->kind == TR) NOALLOC();
	switch (in->kind) {
	case HT: got = s_hashtable_remove_existing((tommy_hashtable*)in->c, &u->nd.n); break;
	case HD: got = s_hashdyn_remove_existing((tommy_hashdyn*)in->c, &u->nd.n); break;
	case HL: got = s_hashlin_remove_existing((tommy_hashlin*)in->c, &u->nd.n); break;
	case TR: got = s_trie_remove_existing((tommy_trie*)in->c, &u->nd.n); break;
	case TI: got = s_trie_inplace_remove_existing((tommy_trie_inplace*)in->c, &u->nd.t); break;
	}
	ALLOW();
	END(in);
	if (got != data_of(id)) {
		id_of_data(got, &g);
		mon_report(O_MEM, "remove-existing-result", "remove_existing of object %u in %s returned %p (id %u) instead of its data", id, kname[in->kind], got, g);
	}
	if (M[id].kprev || M[id].knext) mon_stat("removed_among_equals", 1);
	if (in->kind == HL) CHECK(O_HEAP, mon_heap_events() - he0 <= 1, "hashlin-heap-traffic", "one removal made %llu heap calls", (unsigned long long)(mon_heap_events() - he0));
	work_check(in, "remove", 0);
	cost_check(in, "remove_existing", 0);
	after_remove(x, id);
	mon_res(id);
}
static void do_bucket(int x, uint64_t key)
{
	struct inst* in = &I[x];
	struct krec* r = model_find(&in->m, key);
	uint32_t want = r ? r->head : 0, id, others = 0;
	uint64_t n = 0, same = 0;
	uint32_t stamp = ++stamp_seq;
	mon_op("bucket", (uint64_t)x, key, 0);
	BEGIN(in);
	FORBID();
#define WALK(first, type) { type* i; for (i = (first); i; i = i->next) { \
		void* nd = i; \
		if (++n > in->m.count) mon_report(O_MEM, "bucket-endless", "the bucket of 0x%llx in %s has more nodes than the container has objects", (unsigned long long)key, kname[in->kind]); \
		if (!id_of_data(i->data, &id) || !M[id].live || M[id].inst != x || (void*)&M[id].u->nd != nd) mon_report(O_MEM, "bucket-foreign-node", "the bucket of 0x%llx in %s has a node that is not of a contained object", (unsigned long long)key, kname[in->kind]); \
		if (M[id].key != key) { ++others; continue; } \
		++same; \
		if (M[id].stamp == stamp) mon_report(O_MEM, "bucket-repeated", "the bucket of 0x%llx in %s has object %u twice", (unsigned long long)key, kname[in->kind], id); \
		M[id].stamp = stamp; \
		if (id != want && (mon_mask & O_ORD)) mon_report(O_ORD, "bucket-order", "the bucket of 0x%llx in %s has object %u where %u is due in insertion order", (unsigned long long)key, kname[in->kind], id, want); \
		want = M[id].knext; } }
	switch (in->kind) {
	case HT: WALK(s_hashtable_bucket((tommy_hashtable*)in->c, (tommy_hash_t)key), tommy_hashtable_node) break;
	case HD: WALK(s_hashdyn_bucket((tommy_hashdyn*)in->c, (tommy_hash_t)key), tommy_hashdyn_node) break;
	case HL: WALK(s_hashlin_bucket((tommy_hashlin*)in->c, (tommy_hash_t)key), tommy_hashlin_node) break;
	case TR: WALK(s_trie_bucket((tommy_trie*)in->c, (tommy_key_t)key), tommy_trie_node) break;
	case TI: WALK(s_trie_inplace_bucket((tommy_trie_inplace*)in->c, (tommy_key_t)key), tommy_trie_inplace_node) break;
	}
	ALLOW();
	END(in);
	if (IS_HASH(in->kind)) cost_check(in, 0, 0);
	CHECK(O_MEM, same == (r ? r->n : 0), "bucket-incomplete", "the bucket of 0x%llx in %s has %llu of the %u objects with that key", (unsigned long long)key, kname[in->kind], (unsigned long long)same, r ? r->n : 0);
	if (!IS_HASH(in->kind)) CHECK(O_MEM, others == 0, "bucket-other-keys", "the bucket of key 0x%llx in %s has objects of other keys", (unsigned long long)key, kname[in->kind]);
	else if (in->kind == HT) {
		if (in->contiguous && r && r->n == 1) {
			uint64_t most = (in->m.count + in->ht_buckets - 1) / in->ht_buckets;
			CHECK(O_SIZE, n <= most, "chain-of-consecutive-hashes", "%s: %llu consecutive hashes in %llu buckets, but a chain has %llu objects: not all the buckets are used", kname[in->kind], (unsigned long long)in->m.count, (unsigned long long)in->ht_buckets, (unsigned long long)n);
			mon_stat("fixed_table_chains", 1);
		}
	}
	else if (r && r->n == 1) {
		mon_max("max_chain", n);
		if (in->contiguous) CHECK(O_SIZE, n <= 1, "chain-of-consecutive-hashes", "%s: %llu consecutive hashes, but a chain has %llu objects: the load is above 0.5", kname[in->kind], (unsigned long long)in->m.count, (unsigned long long)n);
		else if (sparse_ok) {
			CHECK(O_SIZE, n <= 24, "long-chain", "%s: a chain has %llu of %llu well spread objects", kname[in->kind], (unsigned long long)n, (unsigned long long)in->m.count);
			mon_stat("chain_samples", 1); mon_stat("chain_total", n);
		}
	}
	if (r && r->n > 1) mon_stat("equal_groups_walked", 1);
	mon_res(same);
}
/* inner nodes required by a set of distinct keys: one for each digit prefix shared by two of them */
static int cmp64(const void* a, const void* b) { uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b; return x < y ? -1 : x > y; }
static uint64_t canonical_nodes(struct inst* in)
{
	uint64_t* k; uint64_t n = 0, i, total = 0; size_t b; unsigned prev = 0;
	k = (uint64_t*)malloc((size_t)(in->m.distinct + 1) * 8);
	REQUIRE(k);
	for (b = 0; b <= in->m.hmask; ++b) { uint32_t j; for (j = in->m.hb[b]; j; j = in->m.rec[j].next) k[n++] = in->m.rec[j].key; }
	REQUIRE(n == in->m.distinct);
	qsort(k, (size_t)n, 8, cmp64);
	for (i = 1; i < n; ++i) {
		unsigned sh = TOMMY_TRIE_BIT - tr_first, cd = 0;
		if (k[i] >> sh == k[i - 1] >> sh) {
			cd = 1 + tr_redundant;
			for (;;) { sh = sh > tr_digit ? sh - tr_digit : 0; if (k[i] >> sh != k[i - 1] >> sh) break; ++cd; }
		}
		if (cd > prev) total += cd - prev;
		prev = cd;
	}
	free(k);
	return total;
}
/* the first level of inner nodes may or may not branch on a digit already used to select the bucket: measured once */
static void calibrate(void)
{
	tommy_allocator a; tommy_trie t; tommy_trie_node n[2]; uint64_t c;
	unsigned sh = TOMMY_TRIE_BIT - tr_first;
	if (tr_redundant >= 0 || sh < tr_digit) { if (tr_redundant < 0) tr_redundant = 1; return; }
	s_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE);
	s_trie_init(&t, &a);
	s_trie_insert(&t, &n[0], 0, 0);
	s_trie_insert(&t, &n[1], 0, (tommy_key_t)1 << (sh - 1));
	c = s_allocator_memory_usage(&a) / TOMMY_TRIE_BLOCK_SIZE;
	tr_redundant = c == 1 ? 0 : 1;
	s_allocator_done(&a);
}
static uint64_t usage_of(struct inst* in)
{
	switch (in->kind) {
	case HT: return s_hashtable_memory_usage((tommy_hashtable*)in->c);
	case HD: return s_hashdyn_memory_usage((tommy_hashdyn*)in->c);
	case HL: return s_hashlin_memory_usage((tommy_hashlin*)in->c);
	case TR: return s_trie_memory_usage((tommy_trie*)in->c);
	default: return s_trie_inplace_memory_usage((tommy_trie_inplace*)in->c);
	}
}
static void usage_check(struct inst* in)
{
	uint64_t u, want = in->m.count;
	BEGIN(in); FORBID(); u = usage_of(in); ALLOW(); END(in); cost_check(in, 0, 0);
	if (in->kind == TI) want *= sizeof(tommy_trie_inplace_node);
	else {
		want *= sizeof(tommy_node);
		if (in->kind != TR) want += in->hbytes;
		else {
			int i, users = 0; uint64_t a = s_allocator_memory_usage(in->alloc), others = 0;
			for (i = 0; i < ni; ++i) if (I[i].kind == TR && I[i].alloc == in->alloc && I[i].c) {
				++users;
				if (&I[i] != in) others += usage_of(&I[i]) - I[i].m.count * sizeof(tommy_trie_node);
			}
			want += a - others;
			if (users > 1) mon_stat("shared_allocator_checks", 1);
		}
	}
	CHECK(O_USE, u == want, "wrong-memory-usage", "%s of %llu objects reports %llu bytes, it uses %llu", kname[in->kind], (unsigned long long)in->m.count, (unsigned long long)u, (unsigned long long)want);
	mon_stat("usage_checks", 1);
	if (in->kind != TR) mon_res((u + in->hbytes) / sizeof(void*));
}
static void econ_check(tommy_allocator* alloc)
{
	int i; uint64_t want = 0, have;
	for (i = 0; i < ni; ++i) if (I[i].kind == TR && I[i].alloc == alloc && I[i].c) {
		uint64_t w = canonical_nodes(&I[i]);
		uint64_t h = s_trie_memory_usage((tommy_trie*)I[i].c) - I[i].m.count * sizeof(tommy_trie_node);
		CHECK(O_ECON, h == w * TOMMY_TRIE_BLOCK_SIZE, "trie-inner-nodes", "a trie of %llu objects and %llu keys uses %llu inner nodes, its keys require %llu",
			(unsigned long long)I[i].m.count, (unsigned long long)I[i].m.distinct, (unsigned long long)(h / TOMMY_TRIE_BLOCK_SIZE), (unsigned long long)w);
		want += w;
	}
	have = s_allocator_memory_usage(alloc) / TOMMY_TRIE_BLOCK_SIZE;
	CHECK(O_ECON, have == want, "trie-inner-nodes", "the tries took %llu inner nodes from the allocator, their keys require %llu", (unsigned long long)have, (unsigned long long)want);
	mon_stat("economy_checks", 1);
	mon_max("max_inner_nodes", want);
}
static void do_foreach(int x, int release)
{
	struct inst* in = &I[x];
	int arg = (int)(rnd() & 1);
	if (!IS_HASH(in->kind)) return;
	mon_op(release ? "foreach-free" : "foreach", (uint64_t)x, (uint64_t)arg, 0);
	E.active = 1; E.inst = x; E.stamp = ++stamp_seq; E.n = 0; E.arg = arg ? (void*)any_arg(in, in->m.count && !in->contiguous ? M[in->m.live[rndn(in->m.count)]].key : 0, &E) : 0; E.release = release;
	mon_budget(2000000000); op_steps = mon_steps;
	FORBID();
	switch (in->kind) {
	case HT: if (arg) s_hashtable_foreach_arg((tommy_hashtable*)in->c, cb_each_arg, E.arg); else s_hashtable_foreach((tommy_hashtable*)in->c, cb_each); break;
	case HD: if (arg) s_hashdyn_foreach_arg((tommy_hashdyn*)in->c, cb_each_arg, E.arg); else s_hashdyn_foreach((tommy_hashdyn*)in->c, cb_each); break;
	case HL: if (arg) s_hashlin_foreach_arg((tommy_hashlin*)in->c, cb_each_arg, E.arg); else s_hashlin_foreach((tommy_hashlin*)in->c, cb_each); break;
	}
	ALLOW();
	mon_op_end();
	E.active = 0;
	if (mon_have_steps) {
		uint64_t most = 100 + 16 * (in->m.count + in->hbytes / sizeof(void*));
		op_steps = mon_steps - op_steps;
		mon_max("max_permille_of_steps_of_foreach", op_steps * 1000 / most);
		CHECK(O_COST, op_steps <= most, "foreach-not-linear", "foreach of a %s of %llu objects executed %llu basic blocks", kname[in->kind], (unsigned long long)in->m.count, (unsigned long long)op_steps);
	}
	CHECK(O_EACH, E.n == in->m.count, "foreach-missed", "foreach of %s visited %llu of %llu objects", kname[in->kind], (unsigned long long)E.n, (unsigned long long)in->m.count);
	mon_stat("foreach_visits", E.n);
	mon_res(E.n);
}
static void audit(int x, int full)
{
	struct inst* in = &I[x];
	size_t b; uint32_t id;
	count_check(in);
	usage_check(in);
	if ((mon_mask & O_ECON) && in->kind == TR && (full || in->m.count < 200)) econ_check(in->alloc);
	if (!full) return;
	mon_stat("full_audits", 1);
	do_foreach(x, 0);
	for (id = in->m.ghead; id; id = M[id].gnext) obj_check(id, in->kind);
	for (b = 0; b <= in->m.hmask; ++b) { uint32_t j; for (j = in->m.hb[b]; j; j = in->m.rec[j].next) do_bucket(x, in->m.rec[j].key); }
	if ((mon_mask & O_HEAP) && H.live < 5000) mon_heap_audit();
}

/* ------------------------------------------------------------------ containers */
static void* container_new(size_t n)
{
	void* p = malloc(n);
	REQUIRE(p);
	mon_garbage(p, n);
	return p;
}
static uint64_t pow2_ceil(uint64_t n) { uint64_t p = 16; while (p < n) p *= 2; return p; }
static void inst_init(int x, int kind, uint64_t size_hint)
{
	struct inst* in = &I[x];
	memset(in, 0, sizeof(*in));
	in->kind = kind;
	model_init(&in->m);
	mon_op("init", (uint64_t)x, (uint64_t)kind, size_hint);
	BEGIN(in);
	switch (kind) {
	case HT: in->c = container_new(sizeof(tommy_hashtable)); s_hashtable_init((tommy_hashtable*)in->c, (tommy_size_t)size_hint); in->ht_buckets = pow2_ceil(size_hint); break;
	case HD: in->c = container_new(sizeof(tommy_hashdyn)); s_hashdyn_init((tommy_hashdyn*)in->c); break;
	case HL: in->c = container_new(sizeof(tommy_hashlin)); s_hashlin_init((tommy_hashlin*)in->c); break;
	case TR:
		in->c = container_new(sizeof(tommy_trie));
		if (shared_alloc && chance(70)) { in->alloc = shared_alloc; in->alloc_shared = 1; }
		else {
			in->alloc = (tommy_allocator*)container_new(sizeof(tommy_allocator));
			s_allocator_init(in->alloc, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE);
			if (!shared_alloc && chance(60)) { shared_alloc = in->alloc; in->alloc_shared = 1; }
		}
		FORBID();
		s_trie_init((tommy_trie*)in->c, in->alloc);
		ALLOW();
		break;
	case TI: in->c = container_new(sizeof(tommy_trie_inplace)); FORBID(); s_trie_inplace_init((tommy_trie_inplace*)in->c); ALLOW(); break;
	}
	END(in);
	if (kind == HT) CHECK(O_SIZE, in->hbytes == in->ht_buckets * sizeof(void*), "hashtable-buckets", "a fixed table of at least %llu buckets has %llu", (unsigned long long)size_hint, (unsigned long long)buckets_of(in));
	in->last_buckets = buckets_of(in);
	mon_res(0);
}
static void inst_done(int x)
{
	struct inst* in = &I[x];
	mon_op("done", (uint64_t)x, in->m.count, 0);
	BEGIN(in);
	switch (in->kind) {
	case HT: s_hashtable_done((tommy_hashtable*)in->c); break;
	case HD: s_hashdyn_done((tommy_hashdyn*)in->c); break;
	case HL: s_hashlin_done((tommy_hashlin*)in->c); break;
	case TR: if (!in->alloc_shared) { s_allocator_done(in->alloc); free(in->alloc); } break;
	}
	END(in);
	if (IS_HASH(in->kind)) CHECK(O_HEAP, in->hbytes == 0, "heap-leak", "%s left %llu bytes after done with %llu objects", kname[in->kind], (unsigned long long)in->hbytes, (unsigned long long)in->m.count);
	free(in->c);
	in->c = 0;
	mon_res(0);
}

/* ------------------------------------------------------------------ workloads */
static struct gen gens[MAXI][3];
static uint64_t new_key(int x)
{
	struct inst* in = &I[x];
	if (!in->contiguous && !sparse_ok && in->m.count && chance(in->maxcount > 100000 ? 1 : 8)) return M[in->m.live[rndn(in->m.count)]].key;
	if (!in->contiguous && !sparse_ok && chance(2)) return mon_word() & gens[x][0].mask;
	return gen_key(&gens[x][in->contiguous ? 0 : rndn(100) < 70 ? 0 : 1 + rndn(2)]);
}
static uint64_t probe_key(int x)
{
	struct inst* in = &I[x];
	unsigned w = width_of(in->kind);
	uint64_t mask = w >= 64 ? ~(uint64_t)0 : ((uint64_t)1 << w) - 1, k;
	unsigned c = (unsigned)rndn(100);
	if (in->m.count && c < 45) return M[in->m.live[rndn(in->m.count)]].key;
	if (in->m.count && c < 75) { k = M[in->m.live[rndn(in->m.count)]].key; k ^= (uint64_t)1 << rndn(w); if (chance(20)) k ^= (uint64_t)1 << rndn(w); if (chance(10)) k += rndn(5) - 2; return k & mask; }
	if (c < 88) return in->recent[rndn(8)] & mask;
	return in->contiguous ? rnd() & mask : gen_key(&gens[x][rndn(3)]);
}
static struct sarg make_arg(int x, uint64_t key)
{
	struct sarg a; struct krec* r = model_find(&I[x].m, key); uint32_t i;
	memset(&a, 0, sizeof(a));
	a.mode = rndn(10) < 4 ? M_VAL : rndn(10) < 6 ? M_ANY : rndn(10) < 8 ? M_ID : M_NONE;
	a.val = (uint32_t)rndn(4); a.magic = (uint32_t)rnd() & 15;
	i = r ? r->head : 0;
	if (i) { uint64_t s = rndn(r->n < 12 ? r->n : 12); while (s-- && M[i].knext) i = M[i].knext; if (chance(30)) i = r->tail; a.id = i; if (chance(70)) a.val = M[i].val; }
	return a;
}
static void step_search(int x) { uint64_t k = probe_key(x); struct sarg a = make_arg(x, k); do_search(x, k, &a); }
static void step_insert(int x) { uint64_t k = new_key(x); do_insert(x, k, (uint32_t)rndn(4)); }
/* how: 0 random, 1 oldest first, 2 newest first */
static void step_remove(int x, int how)
{
	struct inst* in = &I[x];
	uint32_t id;
	if (!in->m.count) return;
	id = how == 1 ? in->m.ghead : how == 2 ? in->m.gtail : in->m.live[rndn(in->m.count)];
	if (in->contiguous) { if (how == 0) id = in->m.ghead; else if (how == 2) --gens[x][0].seq; }
	if (chance(50)) do_remove_existing(x, id);
	else {
		struct sarg a = make_arg(x, M[id].key);
		if (how) { a.mode = M_ID; a.id = id; }
		do_remove(x, M[id].key, &a);
		if (in->contiguous && M[id].live) do_remove_existing(x, id);
	}
}
static void maybe_audit(int x, uint64_t* credit)
{
	struct inst* in = &I[x];
	if (++*credit > 8 + in->m.count * 2 || (in->m.count < 24 && chance(30))) { *credit = 0; audit(x, 1); }
	else if ((*credit & 15) == 0) audit(x, 0);
	else if (chance(10)) do_bucket(x, probe_key(x));
}
static void drive(int x, uint64_t target, int how, uint64_t* credit, int checks)
{
	struct inst* in = &I[x];
	while (in->m.count < target) {
		uint64_t before = in->m.count;
		step_insert(x);
		if (in->m.count == before) break;
		if (checks) maybe_audit(x, credit);
		else if ((before & 63) == 0) { step_search(x); do_bucket(x, probe_key(x)); }
	}
	while (in->m.count > target) {
		uint64_t before = in->m.count;
		step_remove(x, how);
		if (checks) maybe_audit(x, credit);
		else if ((before & 63) == 0) { step_search(x); do_bucket(x, probe_key(x)); count_check(in); }
	}
}
static const char* has(const char* tok) { return strstr(mon_variant, tok); }

static int run_case(long index)
{
	int x, i, phases, kinds[NKIND], nk = 0, sizeclass, checks;
	uint64_t cap, credit[MAXI] = { 0 }, total = 0;
	int dist;
	char desc[400]; int dl = 0;
	unsigned resizes = 0;

	digits();
	calibrate();
	if (has("hash")) { kinds[nk++] = HT; kinds[nk++] = HD; kinds[nk++] = HL; }
	else if (has("trie")) { kinds[nk++] = TR; kinds[nk++] = TI; }
	else if (has("lin")) kinds[nk++] = HL;
	else if (has("dyn")) { kinds[nk++] = HD; kinds[nk++] = HL; kinds[nk++] = HD; kinds[nk++] = HL; kinds[nk++] = HT; }
	else for (i = 0; i < NKIND; ++i) kinds[nk++] = i;

	sizeclass = has("huge") ? 3 : has("large") ? 2 : has("mid") ? 1 : has("small") ? 0 : (int)(index % 40 == 39 ? 2 : index % 8 == 7 ? 1 : 0);
	obj_free = has("free") != 0;
	data_odd = has("aligned") ? 0 : chance(30);
	mon_heap_fill = (unsigned)rndn(4);
	if (has("fill0")) mon_heap_fill = 0;
	if (has("fill1")) mon_heap_fill = 1;
	mon_heap_skew = 0;
	for (i = 8; i < 16; ++i) { nonzero[i] = (int)mon_word(); if (!nonzero[i]) nonzero[i] = i; }
	work_on = sparse_ok = 0;
	shared_alloc = 0;
	ni = 1 + (sizeclass < 2 ? (int)rndn(3) : 0);
	cap = sizeclass == 3 ? (uint64_t)(5500000 * mon_scale) : sizeclass == 2 ? 150000 + rndn((uint64_t)(900000 * mon_scale)) : sizeclass == 1 ? 2000 + rndn(28000) : 4 + rndlog(400);

	/* keys: spread ones allow bounds on the work; colliding ones only with few objects */
	dist = (int)rndn(NDIST);
	if (has("spread") || sizeclass >= 2) { static const int d[] = { 0, 7, 10, 7, 2, 0 }; dist = d[rndn(6)]; }
	if (has("spread") && has("nodup")) { sparse_ok = 1; }
	if (has("steps")) work_on = 1;

	mcap = (uint32_t)(cap * (sizeclass >= 2 ? 1 : ni) * 3 / 2 + 64);
	if (sizeclass == 3) mcap = (uint32_t)(cap + cap / 8);
	M = (struct meta*)calloc((size_t)mcap + 2, sizeof(*M));
	stale = chance(35);
	{ const uintptr_t special[4] = { ~(uintptr_t)0, ~(uintptr_t)1, (uintptr_t)&I[0], (uintptr_t)mon_report }; uint64_t w = rndn(8); data_xor = has("aligned") ? 0 : w == 0 ? ~(uintptr_t)0 : w == 1 ? (uintptr_t)&M[0] + data_odd : w == 3 ? ((uintptr_t)&M[1 + rndn(mcap < 200 ? mcap : 200)] + data_odd) ^ (special[rndn(4)]) : 0; }
	REQUIRE(M);
	mnext = 1; mfree = 0;
	pool = 0; pool_used = 0; pool_cap = (size_t)mcap + 1;

	{
		int anyti = 0;
		int ks[MAXI];
		for (x = 0; x < ni; ++x) { ks[x] = kinds[(index + x + (x ? (int)rndn(5) : 0)) % nk]; if (has("huge") || has("large")) ks[x] = kinds[index % nk]; anyti |= ks[x] == TI; }
		pool_stride = (ni > 1 || anyti) ? sizeof(struct uobj) : sizeof(struct uobj_n);
		mon_layout_init(&Y, index, pool_cap);
		if (obj_free) Y.bare = 0;
		if (Y.bare) pool_stride = anyti ? sizeof(tommy_trie_inplace_node) : sizeof(tommy_node);
		if (!obj_free) { pool = (char*)malloc(64 + pool_stride * (size_t)mon_slots(&Y)); REQUIRE(pool); }
		for (x = 0; x < ni; ++x) {
			uint64_t hint = 0;
			if (ks[x] == HT) {
				static const uint64_t hs[] = { 0, 1, 15, 16, 17, 31, 32, 33, 100, 1000, 1023, 1024, 1025, 4096, 65535, 65537 };
				hint = sizeclass >= 2 ? cap * (1 + rndn(3)) / 2 : hs[rndn(sizeclass ? 16 : 12)];
				if (sizeclass == 0 && chance(30)) hint = chance(30) ? mon_size(5000) : rndlog(5000);
				if (sizeclass == 1 && hint < cap / 64) hint = cap / 32;
			}
			inst_init(x, ks[x], hint);
			for (i = 0; i < 3; ++i) gen_init(&gens[x][i], i == 0 ? dist : (has("spread") || sizeclass >= 2) ? (int[]){ 7, 2, 10 }[rndn(3)] : (int)rndn(NDIST), width_of(ks[x]));
			if (chance(has("spread") ? (IS_HASH(ks[x]) ? 35 : 0) : IS_HASH(ks[x]) && !sizeclass ? 8 : 0)) {
				I[x].contiguous = 1;
				gen_init(&gens[x][0], 0, width_of(ks[x]));
				if (gens[x][0].base > gens[x][0].mask - 0x10000000) gens[x][0].base = 0;
			}
			dl += snprintf(desc + dl, sizeof(desc) - (size_t)dl, "%s%s/%s%s", x ? ", " : "", kname[ks[x]], dname[gens[x][0].dist], I[x].contiguous ? "(window)" : "");
		}
	}
	if (has("thrash")) {
		/* at each size where a table could be resized, back and forth over it many times */
		uint64_t c, top = 40000 + rndn(110000), prev = 0; int dir;
		if (top > cap) top = cap;
		if (I[0].kind == HT && top > I[0].ht_buckets * 64) top = I[0].ht_buckets * 64;
		for (dir = 0; dir < 2; ++dir) {
			uint64_t list[400]; int nlist = 0, j;
			for (c = 8; c <= top; c *= 2) { int q; for (q = 4; q < 8; ++q) for (j = -1; j <= 1; ++j) if (c * (unsigned)q / 4 < top && nlist < 396) list[nlist++] = c * (unsigned)q / 4 + (uint64_t)(int64_t)j; }
			for (j = 0; j < nlist; ++j) {
				uint64_t t = list[dir ? nlist - 1 - j : j], amp = 1 + rndn(3), rep = 60, k;
				drive(0, t, 0, &credit[0], 0);
				while (rep--) { if (dir) { for (k = 0; k < amp && I[0].m.count; ++k) step_remove(0, 1); for (; k; --k) step_insert(0); } else { for (k = 0; k < amp; ++k) step_insert(0); for (; k; --k) step_remove(0, 1); } }
				prev = t;
			}
			if (dir == 0) drive(0, top, 0, &credit[0], 0);
		}
		dl += snprintf(desc + dl, sizeof(desc) - (size_t)dl, "; thrash up to %llu, last %llu", (unsigned long long)top, (unsigned long long)prev);
		mon_stat("thrash_cases", 1);
	}
	checks = sizeclass == 0 || (sizeclass == 1 && cap < 6000);
	phases = 3 + (int)rndn(sizeclass >= 2 ? 3 : 6);
	dl += snprintf(desc + dl, sizeof(desc) - (size_t)dl, "; cap %llu; phases", (unsigned long long)cap);

	for (i = 0; i < phases; ++i) {
		int ph, how = (int)rndn(3);
		uint64_t lim = cap;
		x = (int)rndn((uint64_t)ni);
		if (IS_HASH(I[x].kind) && sizeclass >= 1 && !I[x].contiguous) {
			/* long chains make every operation linear: keep them short enough to be driven */
			int d = gens[x][0].dist, j;
			for (j = 0; j < 3; ++j) { d = gens[x][j].dist; if (d == 1 || d == 3 || d == 4 || d == 5 || d == 6 || d == 8 || d == 9 || d == 11 || d == 12) { lim = cap < 1500 ? cap : 1500; break; } }
		}
		if (I[x].kind == HT && lim > I[x].ht_buckets * 64) lim = I[x].ht_buckets * 64;
		ph = i == 0 ? 0 : (int)rndn(8);
		if (dl < 330) dl += snprintf(desc + dl, sizeof(desc) - (size_t)dl, " %c%d", "GSXOQDRM"[ph], x);
		switch (ph) {
		case 0: /* grow */
			drive(x, sizeclass >= 2 ? lim : (chance(20) ? mon_size(lim - 1) : rndlog(lim)) + 1, how, &credit[x], checks);
			break;
		case 1: /* shrink */
			drive(x, chance(20) ? mon_size(I[x].m.count) : rndn(I[x].m.count + 1) / (chance(50) ? 1 : 16), how, &credit[x], checks);
			break;
		case 2: case 7: { /* mixed operations on all the instances */
			uint64_t n = sizeclass >= 2 ? cap / 3 : 40 + rndlog(sizeclass ? 20000 : 1200), wi = 1 + rndn(10), wr = 1 + rndn(10), ws = 1 + rndn(10), wm = rndn(5);
			while (n--) {
				uint64_t w = rndn(wi + wr + ws + wm);
				int y = sizeclass >= 2 ? x : (int)rndn((uint64_t)ni);
				uint64_t l2 = lim;
				if (I[y].kind == HT && l2 > I[y].ht_buckets * 64) l2 = I[y].ht_buckets * 64;
				if (y != x && l2 > 1500) l2 = 1500;
				if (w < wi && (I[y].m.count < l2)) step_insert(y);
				else if (w < wi + wr) step_remove(y, how);
				else if (w < wi + wr + ws) step_search(y);
				else { uint64_t k = probe_key(y); struct sarg a = make_arg(y, k); if (I[y].contiguous) continue; do_remove(y, k, &a); }
				if (checks) maybe_audit(y, &credit[y]);
				else if ((n & 31) == 0) do_bucket(y, probe_key(y));
			}
			break; }
		case 3: { /* oscillation around a resize threshold, with reversals of any amplitude */
			unsigned maxb = lg(lim) + 2, k = 5 + (unsigned)rndn(maxb > 5 ? maxb - 5 : 1);
			uint64_t b = (uint64_t)1 << k, t;
			int rev = (int)(sizeclass >= 2 ? 3 + rndn(4) : 4 + rndn(30));
			switch (rndn(4)) { case 0: t = b / 2; break; case 1: t = b / 8; break; case 2: t = b / 16; break; default: t = chance(30) ? mon_size(b) : rndlog(b / 2); }
			if (t > lim) t = lim;
			if (chance(40)) drive(x, t * 4 < lim ? t * 4 : lim, how, &credit[x], checks);
			drive(x, t, how, &credit[x], checks);
			while (rev--) {
				uint64_t a = chance(50) ? rndlog(b / 4) : rndn(4), c;
				c = t + a < lim ? t + a : lim;
				drive(x, c, how, &credit[x], checks);
				if (checks || chance(20)) audit(x, sizeclass < 2);
				a = chance(50) ? rndlog(b / 4) : rndn(4);
				drive(x, t > a ? t - a : 0, how, &credit[x], checks);
				if (chance(20)) t = (t * (2 + rndn(4))) / 4;
			}
			break; }
		case 4: { /* steady queue */
			uint64_t n = sizeclass >= 2 ? cap / 2 : 30 + rndlog(sizeclass ? 10000 : 600), t = 1 + rndlog(lim / 2 + 1);
			drive(x, t, how, &credit[x], checks);
			while (n--) { step_insert(x); step_remove(x, 1); if (checks) maybe_audit(x, &credit[x]); }
			break; }
		case 5: { /* a burst of equal keys, then removal of some of them */
			uint64_t n = 2 + rndlog(sizeclass >= 1 ? 3000 : 120), k;
			uint32_t first = 0; uint64_t j;
			if (I[x].contiguous || has("nodup")) break; /* before drawing a key: a window has no holes */
			k = I[x].m.count && chance(60) ? M[I[x].m.live[rndn(I[x].m.count)]].key : gen_key(&gens[x][0]);
			for (j = 0; j < n; ++j) { uint32_t id = do_insert(x, k, (uint32_t)rndn(4)); if (!first) first = id; if (chance(20) && I[x].m.count < lim) step_insert(x); }
			do_bucket(x, k);
			for (j = 0; j < n; ++j) {
				struct krec* r = model_find(&I[x].m, k);
				if (!r) break;
				switch (rndn(5)) {
				case 0: do_remove_existing(x, r->head); break;
				case 1: do_remove_existing(x, r->tail); break;
				case 2: { uint32_t id = r->head; uint64_t s = rndn(r->n < 64 ? r->n : 64); while (s-- && M[id].knext) id = M[id].knext; do_remove_existing(x, id); break; }
				case 3: { struct sarg a = make_arg(x, k); do_remove(x, k, &a); break; }
				default: { struct sarg a = make_arg(x, k); do_search(x, k, &a); break; }
				}
				if (n < 100 || (j & 31) == 0) do_bucket(x, k);
				if (chance(3)) break;
			}
			break; }
		case 6: /* empty and refill, sometimes with done and init */
			drive(x, 0, how, &credit[x], checks);
			audit(x, 1);
			if (chance(40) && I[x].kind != TR) {
				int k = I[x].kind; uint64_t hint = I[x].ht_buckets, b0 = I[x].contiguous;
				inst_done(x); model_done(&I[x].m); inst_init(x, k, hint); I[x].contiguous = (int)b0;
			}
			drive(x, sizeclass >= 2 ? rndn(lim / 2) : rndlog(lim), how, &credit[x], checks);
			break;
		}
		if (sizeclass < 3) audit(x, 1); else { audit(x, 0); do_foreach(x, 0); }
	}
	/* final states: emptied one by one, released from foreach, or done while full */
	for (x = 0; x < ni; ++x) {
		total += I[x].maxcount; resizes += (unsigned)I[x].resizes;
		mon_max("max_objects", I[x].maxcount);
		audit(x, 1);
		switch (rndn(3)) {
		case 0:
			drive(x, 0, (int)rndn(3), &credit[x], checks);
			audit(x, 1);
			if (IS_HASH(I[x].kind) && I[x].kind == HL) CHECK(O_SIZE, buckets_of(&I[x]) <= 64 * 2, "oversized", "an emptied hashlin has %llu buckets", (unsigned long long)buckets_of(&I[x]));
			break;
		case 1:
			if (IS_HASH(I[x].kind)) {
				do_foreach(x, 1); /* deallocates the objects */
				I[x].m.count = 0;
			}
			break;
		default: break; /* done with elements inside */
		}
	}
	for (x = 0; x < ni; ++x) {
		/* objects still inside are released before done: done must not touch them */
		if (I[x].m.count && chance(70)) { uint32_t id; for (id = I[x].m.ghead; id; id = M[id].gnext) obj_release(id); I[x].m.count = 0; }
		if (obj_free && I[x].m.count) { uint32_t id; inst_done(x); for (id = I[x].m.ghead; id; id = M[id].gnext) obj_release(id); I[x].m.count = 0; }
		else inst_done(x);
	}
	if (shared_alloc) { s_allocator_done(shared_alloc); free(shared_alloc); shared_alloc = 0; }
	if (mon_mask & O_HEAP) mon_heap_leakcheck("done of every container");
	for (x = 0; x < ni; ++x) model_done(&I[x].m);
	mon_sample("%s; max objects %llu, resizes %u", desc, (unsigned long long)total, resizes);
	free(M); free(pool);
	mon_heap_reset();
	return total >= 8;
}

int main(int argc, char** argv) { return mon_main(argc, argv, "h_map", run_case); }
