/* Threads: containers of their own without any synchronisation, containers shared under a lock, and containers
 * read by many threads at once. Races are reported by ThreadSanitizer; results are compared with those each
 * thread obtains alone. Library and harness use the C heap directly (MON_RAWHEAP). */
#include "sut.h"
#include "sut_api.h"
#define NEST_GROUP O_ALWAYS
#define NEST_HEAP
#define NEST_THREADS
#include "nest.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>

#define MAXT 8
#define NOBJ 384
struct ob {
	tommy_node list; tommy_tree_node tree; tommy_hashtable_node ht; tommy_hashdyn_node hd; tommy_hashlin_node hl; tommy_trie_node tr; tommy_trie_inplace_node ti;
	uint32_t key, id, val; int in, intree;
};
struct set {
	tommy_list list; tommy_tree tree; tommy_hashtable ht; tommy_hashdyn hd; tommy_hashlin hl; tommy_trie tr; tommy_allocator al, al2; tommy_trie_inplace ti;
	tommy_array a; tommy_arrayblk ab; tommy_arrayof ao; tommy_arrayblkof abo;
	unsigned asize;
};
struct actor {
	mon_rng r; uint64_t dig, ops; unsigned nobj; struct ob* o; struct set* s; void* blk[64]; unsigned nblk;
	uint32_t keymask; int delays; unsigned overlap;
};
static unsigned running; /* relaxed counter of threads inside the library: no ordering is implied */
static unsigned maxover;
static uint64_t overlaps;
static void put(struct actor* x, uint64_t v) { x->dig = (x->dig ^ v) * 0x100000001b3ULL + 0x9e37; x->dig ^= x->dig >> 31; }
static uint64_t rn(struct actor* x, uint64_t n) { return rng_next(&x->r) % n; }
static int cmp_tree(const void* a, const void* b) { uint32_t x = ((const struct ob*)a)->key, y = ((const struct ob*)b)->key; nest_maybe(); return x < y ? -1 : x > y; }
static int cmp_id(const void* a, const void* b) { nest_maybe(); return ((const struct ob*)a)->key != ((const struct ob*)b)->key; }
static int cmp_exact(const void* a, const void* b) { nest_maybe(); return a != b; }
static __thread uint64_t tl_sum, tl_n;
static void each(void* b) { tl_sum = tl_sum * 31 + ((struct ob*)b)->id; ++tl_n; }
static void each_u(void* b) { tl_sum += ((struct ob*)b)->id * 2654435761u; ++tl_n; }
static void each_arg(void* a, void* b) { nest_maybe(); *(uint64_t*)a += ((struct ob*)b)->id * 2654435761u; }

static void set_init(struct set* s)
{
	s_list_init(&s->list); s_tree_init(&s->tree, cmp_tree); s_hashtable_init(&s->ht, 64); s_hashdyn_init(&s->hd); s_hashlin_init(&s->hl);
	s_allocator_init(&s->al, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); s_allocator_init(&s->al2, 24, 8); s_trie_init(&s->tr, &s->al); s_trie_inplace_init(&s->ti);
	s_array_init(&s->a); s_arrayblk_init(&s->ab); s_arrayof_init(&s->ao, 12); s_arrayblkof_init(&s->abo, 20);
	s->asize = 0;
}
static void set_done(struct set* s)
{
	s_hashtable_done(&s->ht); s_hashdyn_done(&s->hd); s_hashlin_done(&s->hl); s_allocator_done(&s->al); s_allocator_done(&s->al2);
	s_array_done(&s->a); s_arrayblk_done(&s->ab); s_arrayof_done(&s->ao); s_arrayblkof_done(&s->abo);
}
static void ob_insert(struct set* s, struct ob* o, int head)
{
	if (head) s_list_insert_head(&s->list, &o->list, o); else s_list_insert_tail(&s->list, &o->list, o);
	o->intree = s_tree_insert(&s->tree, &o->tree, o) == (void*)o;
	s_hashtable_insert(&s->ht, &o->ht, o, o->key); s_hashdyn_insert(&s->hd, &o->hd, o, o->key); s_hashlin_insert(&s->hl, &o->hl, o, o->key);
	s_trie_insert(&s->tr, &o->tr, o, o->key); s_trie_inplace_insert(&s->ti, &o->ti, o, o->key);
	o->in = 1;
}
static uint64_t idv(const void* p) { return p ? ((const struct ob*)p)->id + 1 : 0; }
static uint64_t ob_remove(struct set* s, struct ob* o, int how)
{
	uint64_t v = idv(s_list_remove_existing(&s->list, &o->list));
	if (o->intree) v = v * 31 + idv(how ? s_tree_remove(&s->tree, o) : s_tree_remove_existing(&s->tree, &o->tree));
	v = v * 31 + idv(how ? s_hashtable_remove(&s->ht, cmp_exact, o, o->key) : s_hashtable_remove_existing(&s->ht, &o->ht));
	v = v * 31 + idv(how ? s_hashdyn_remove(&s->hd, cmp_exact, o, o->key) : s_hashdyn_remove_existing(&s->hd, &o->hd));
	v = v * 31 + idv(how ? s_hashlin_remove(&s->hl, cmp_exact, o, o->key) : s_hashlin_remove_existing(&s->hl, &o->hl));
	v = v * 31 + idv(s_trie_remove_existing(&s->tr, &o->tr));
	v = v * 31 + idv(s_trie_inplace_remove_existing(&s->ti, &o->ti));
	o->in = o->intree = 0;
	return v;
}
/* everything that only reads; the result depends on the content only */
static uint64_t read_all(struct set* s, struct ob* probe, unsigned what, uint64_t aidx)
{
	uint64_t v = 0, sum = 0; tommy_node* n; tommy_trie_inplace_node* m;
	switch (what) {
	case 0: v = idv(s_tree_search(&s->tree, probe)) * 31 + idv(s_tree_search_compare(&s->tree, cmp_tree, probe)); break;
	case 1: v = idv(s_hashtable_search(&s->ht, cmp_id, probe, probe->key)); for (n = s_hashtable_bucket(&s->ht, probe->key); n; n = n->next) v = v * 31 + idv(n->data); break;
	case 2: v = idv(s_hashdyn_search(&s->hd, cmp_id, probe, probe->key)); for (n = s_hashdyn_bucket(&s->hd, probe->key); n; n = n->next) v = v * 31 + idv(n->data); break;
	case 3: v = idv(s_hashlin_search(&s->hl, cmp_id, probe, probe->key)); for (n = s_hashlin_bucket(&s->hl, probe->key); n; n = n->next) v = v * 31 + idv(n->data); break;
	case 4: v = idv(s_trie_search(&s->tr, probe->key)); for (n = s_trie_bucket(&s->tr, probe->key); n; n = n->next) v = v * 31 + idv(n->data); break;
	case 5: v = idv(s_trie_inplace_search(&s->ti, probe->key)); for (m = s_trie_inplace_bucket(&s->ti, probe->key); m; m = m->next) v = v * 31 + idv(m->data); break;
	case 6: v = s_list_count(&s->list) + s_tree_count(&s->tree) * 3 + s_hashtable_count(&s->ht) * 5 + s_hashdyn_count(&s->hd) * 7 + s_hashlin_count(&s->hl) * 11 + s_trie_count(&s->tr) * 13 + s_trie_inplace_count(&s->ti) * 17; break;
	case 7: v = s_tree_memory_usage(&s->tree) + s_hashtable_memory_usage(&s->ht) * 3 + s_hashdyn_memory_usage(&s->hd) * 5 + s_hashlin_memory_usage(&s->hl) * 7 + s_trie_memory_usage(&s->tr) * 11 + s_trie_inplace_memory_usage(&s->ti) * 13 + s_allocator_memory_usage(&s->al) * 17; break;
	case 8: tl_sum = tl_n = 0; s_list_foreach(&s->list, each); v = tl_sum + tl_n; s_list_foreach_arg(&s->list, each_arg, &sum); v += sum; break;
	case 9: tl_sum = tl_n = 0; s_tree_foreach(&s->tree, each); v = tl_sum + tl_n; s_tree_foreach_arg(&s->tree, each_arg, &sum); v += sum; break;
	case 10: tl_sum = tl_n = 0; s_hashtable_foreach(&s->ht, each_u); v = tl_sum + tl_n; s_hashtable_foreach_arg(&s->ht, each_arg, &sum); v += sum; break;
	case 11: tl_sum = tl_n = 0; s_hashdyn_foreach(&s->hd, each_u); v = tl_sum + tl_n; s_hashdyn_foreach_arg(&s->hd, each_arg, &sum); v += sum; break;
	case 12: tl_sum = tl_n = 0; s_hashlin_foreach(&s->hl, each_u); v = tl_sum + tl_n; s_hashlin_foreach_arg(&s->hl, each_arg, &sum); v += sum; break;
	case 13: v = idv(s_list_head(&s->list) ? s_list_head(&s->list)->data : 0) * 31 + idv(s_list_tail(&s->list) ? s_list_tail(&s->list)->data : 0) + s_list_empty(&s->list); break;
	case 14: if (s->asize) { unsigned i = (unsigned)(aidx % s->asize); char* p = (char*)s_arrayof_ref(&s->ao, i), *q = (char*)s_arrayblkof_ref(&s->abo, i);
		v = (uintptr_t)s_array_get(&s->a, i) * 31 + (uintptr_t)s_arrayblk_get(&s->ab, i) * 3 + (uintptr_t)*s_array_ref(&s->a, i) + (uintptr_t)*s_arrayblk_ref(&s->ab, i) + (unsigned char)p[aidx % 12] + (unsigned char)q[aidx % 20]; }
		v += s_array_size(&s->a) + s_arrayblk_size(&s->ab) + s_arrayof_size(&s->ao) + s_arrayblkof_size(&s->abo); break;
	case 15: v = s_array_memory_usage(&s->a) + s_arrayblk_memory_usage(&s->ab) * 3 + s_arrayof_memory_usage(&s->ao) * 5 + s_arrayblkof_memory_usage(&s->abo) * 7; break;
	default: { static const char text[] = "the quick brown fox jumps over the lazy dog, and so on until the end of the buffer";
		unsigned l = (unsigned)(aidx % sizeof(text)), f = (unsigned)(aidx / 97 % (sizeof(text) - l));
		v = s_hash_u32((uint32_t)aidx, text + f, l) + s_hash_u64(aidx, text + f, l) * 31 + s_strhash_u32((uint32_t)aidx, text + f) * 3 + s_inthash_u32((uint32_t)aidx) * 5 + s_inthash_u64(aidx) * 7
			+ s_ilog2_u32((uint32_t)aidx | 1) + s_ctz_u32((uint32_t)aidx | 0x80000000u) + s_roundup_pow2_u32((uint32_t)aidx >> 1); }
	}
	return v;
}
#define NREAD 17
static void pause_at(struct actor* x)
{
	uint64_t d;
	if (!x->delays) return;
	d = rng_next(&x->r) & 0x3ff; /* drawn also in the reference run, which does not sleep */
	if (x->delays < 0) return;
	if (d < 20) sched_yield(); else if (d < 22) { struct timespec t = { 0, 20000 }; nanosleep(&t, 0); }
}
static void enter(void) { unsigned n = __atomic_add_fetch(&running, 1, __ATOMIC_RELAXED); if (n > 1) __atomic_add_fetch(&overlaps, 1, __ATOMIC_RELAXED); if (n > __atomic_load_n(&maxover, __ATOMIC_RELAXED)) __atomic_store_n(&maxover, n, __ATOMIC_RELAXED); }
static void leave(void) { __atomic_sub_fetch(&running, 1, __ATOMIC_RELAXED); }

static void grow_arrays(struct set* s, unsigned n, uint64_t tag)
{
	unsigned i;
	s_array_grow(&s->a, n); s_arrayblk_grow(&s->ab, n); s_arrayof_grow(&s->ao, n); s_arrayblkof_grow(&s->abo, n);
	for (i = s->asize; i < n; ++i) {
		s_array_set(&s->a, i, (void*)(uintptr_t)(i * 7 + tag % 1000)); s_arrayblk_set(&s->ab, i, (void*)(uintptr_t)(i * 11 + tag % 1000));
		memset(s_arrayof_ref(&s->ao, i), (int)(i + tag), 12); memset(s_arrayblkof_ref(&s->abo, i), (int)(i * 3 + tag), 20);
	}
	if (s->asize < n) s->asize = n;
}
/* mode A: one thread, containers of its own */
static void actor_run(struct actor* x)
{
	struct set* s = x->s; uint64_t k; unsigned i;
	nest_begin(rng_next(&x->r), 150, 300);
	set_init(s);
	for (i = 0; i < x->nobj; ++i) { x->o[i].id = i; x->o[i].key = (uint32_t)rng_next(&x->r) & x->keymask; x->o[i].in = 0; x->o[i].intree = 0; }
	for (k = 0; k < x->ops; ++k) {
		struct ob* o = &x->o[rn(x, x->nobj)]; unsigned w = (unsigned)rn(x, 100), fill = (unsigned)(k / (x->nobj * 2)) & 1;
		pause_at(x);
		enter();
		if (w < 40) {
			if (!o->in) { if (!fill || w < 10) ob_insert(s, o, w & 1); }
			else if (fill || w < 10) put(x, ob_remove(s, o, w & 1));
		} else if (w < 84) put(x, read_all(s, o, (unsigned)rn(x, NREAD), rng_next(&x->r)));
		else if (w < 88) { s_list_sort(&s->list, cmp_tree); put(x, read_all(s, o, 8, 0)); }
		else if (w < 91) grow_arrays(s, s->asize + (unsigned)rn(x, rn(x, 40) ? 60 : 5000), k);
		else if (w < 97) {
			if (x->nblk < 64 && (w & 1)) { x->blk[x->nblk] = s_allocator_alloc(&s->al2); memset(x->blk[x->nblk++], (int)k, 24); }
			else if (x->nblk) { unsigned char* b = (unsigned char*)x->blk[--x->nblk]; put(x, b[0] * 3 + b[23]); s_allocator_free(&s->al2, b); }
		} else if (w == 99 && rn(x, 20) == 0) {
			for (i = 0; i < x->nobj; ++i) if (x->o[i].in) put(x, ob_remove(s, &x->o[i], 0));
			set_done(s); x->nblk = 0; set_init(s);
		}
		leave();
	}
	for (i = 0; i < NREAD; ++i) put(x, read_all(s, &x->o[0], i, 12345));
	set_done(s); x->nblk = 0;
}
static pthread_barrier_t bar;
static void* thread_a(void* p) { pthread_barrier_wait(&bar); actor_run((struct actor*)p); return 0; }
static struct actor* actor_new(uint64_t seed, unsigned nobj, uint64_t ops, uint32_t mask, int delays)
{
	struct actor* x = (struct actor*)calloc(1, sizeof(*x));
	REQUIRE(x);
	x->r.s = seed; x->nobj = nobj; x->ops = ops; x->keymask = mask; x->delays = delays;
	x->o = (struct ob*)calloc(nobj, sizeof(struct ob)); x->s = (struct set*)calloc(1, sizeof(struct set));
	REQUIRE(x->o && x->s);
	return x;
}
static void actor_free(struct actor* x) { free(x->o); free(x->s); free(x); }
static const uint32_t masks[] = { 0xffffffffu, 0x3f, 0xff00ff00u, 0xfff, 0x7 };

static int case_distinct(unsigned nt, uint64_t ops)
{
	struct actor* x[MAXT]; struct actor* y[MAXT]; pthread_t th[MAXT]; unsigned i; uint64_t seed[MAXT];
	int delays = (int)rndn(2); int before = (int)rndn(2);
	for (i = 0; i < nt; ++i) {
		unsigned nobj = 16 + (unsigned)rndlog(NOBJ - 16); uint32_t m = masks[rndn(5)];
		seed[i] = rnd();
		if (i && chance(30)) seed[i] = seed[0]; /* the very same work at the same time */
		x[i] = actor_new(seed[i], nobj, ops, m, delays); y[i] = actor_new(seed[i], nobj, ops, m, delays ? -1 : 0);
	}
	mon_op("distinct", nt, ops, (uint64_t)delays);
	if (before) for (i = 0; i < nt; ++i) actor_run(y[i]);
	overlaps = 0; maxover = 0; running = 0;
	pthread_barrier_init(&bar, 0, nt);
	for (i = 0; i < nt; ++i) REQUIRE(pthread_create(&th[i], 0, thread_a, x[i]) == 0);
	for (i = 0; i < nt; ++i) pthread_join(th[i], 0);
	pthread_barrier_destroy(&bar);
	mon_stat("overlapping_operations", overlaps); mon_max("max_threads_inside_at_once", maxover);
	if (!before) for (i = 0; i < nt; ++i) actor_run(y[i]);
	for (i = 0; i < nt; ++i) {
		CHECK(O_ALWAYS, x[i]->dig == y[i]->dig, "thread-result-differs", "a thread using its own containers obtained results different from those it obtains alone (thread %u of %u, %llu operations)", i, nt, (unsigned long long)ops);
		mon_stat("thread_operations", ops);
		mon_res(x[i]->dig);
	}
	mon_events += nt * ops;
	for (i = 0; i < nt; ++i) { actor_free(x[i]); actor_free(y[i]); }
	return 1;
}
/* mode B: shared under a lock, each thread with its own objects and its own keys and hashes of its own or not */
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static struct { struct set s; uint64_t order; unsigned last; uint64_t handovers, locked; } SH;
static void* thread_b(void* p)
{
	struct actor* x = (struct actor*)p; unsigned me = (unsigned)x->overlap; uint64_t k;
	nest_begin(rng_next(&x->r), 150, 300);
	pthread_barrier_wait(&bar);
	for (k = 0; k < x->ops; ++k) {
		struct ob* o = &x->o[rn(x, x->nobj)]; unsigned w = (unsigned)rn(x, 100), fill = (unsigned)(k / (x->nobj * 2)) & 1;
		pause_at(x);
		pthread_mutex_lock(&mtx);
		SH.order = (SH.order ^ (me + 1)) * 0x100000001b3ULL; ++SH.locked; if (SH.last != me) { ++SH.handovers; SH.last = me; }
		if (w < 60) {
			if (!o->in) { if (!fill || w < 15) { ob_insert(&SH.s, o, w & 1); if (!o->intree) put(x, 77); } }
			else if (fill || w < 15) { uint64_t v = ob_remove(&SH.s, o, w & 1); if (v == 0) put(x, 78); }
		} else {
			/* exact searches of the own objects */
			uint64_t v = idv(s_tree_search(&SH.s.tree, o));
			v = v * 31 + idv(s_hashtable_search(&SH.s.ht, cmp_exact, o, o->key)); v = v * 31 + idv(s_hashdyn_search(&SH.s.hd, cmp_exact, o, o->key)); v = v * 31 + idv(s_hashlin_search(&SH.s.hl, cmp_exact, o, o->key));
			v = v * 31 + idv(s_trie_search(&SH.s.tr, o->key)); v = v * 31 + idv(s_trie_inplace_search(&SH.s.ti, o->key));
			put(x, v);
			if (w > 97) s_list_sort(&SH.s.list, cmp_tree);
			if (w == 97) { tl_n = 0; s_hashlin_foreach(&SH.s.hl, each_u); if (tl_n != s_hashlin_count(&SH.s.hl)) put(x, 99); }
		}
		pthread_mutex_unlock(&mtx);
	}
	return 0;
}
static int case_locked(unsigned nt, uint64_t ops)
{
	struct actor* x[MAXT]; struct actor* y[MAXT]; pthread_t th[MAXT]; unsigned i, j, pass; int delays = (int)rndn(2);
	uint64_t dig[MAXT];
	for (i = 0; i < nt; ++i) {
		uint64_t seed = rnd(); unsigned nobj = 16 + (unsigned)rndn(NOBJ / 2);
		x[i] = actor_new(seed, nobj, ops, 0, delays); y[i] = actor_new(seed, nobj, ops, 0, delays ? -1 : 0);
		/* keys never shared between the threads, but interleaved; ids of one thread only */
		for (j = 0; j < nobj; ++j) { x[i]->o[j].id = y[i]->o[j].id = j; x[i]->o[j].key = y[i]->o[j].key = (uint32_t)(j * MAXT + i) * (nt & 1 ? 0x01000193u : 1u); }
		x[i]->overlap = y[i]->overlap = i;
	}
	mon_op("locked", nt, ops, (uint64_t)delays);
	for (pass = 0; pass < 2; ++pass) {
		memset(&SH, 0, sizeof(SH)); set_init(&SH.s);
		if (pass == 0) for (i = 0; i < nt; ++i) { /* reference: one after the other */
			pthread_barrier_init(&bar, 0, 1); thread_b(y[i]); pthread_barrier_destroy(&bar);
		} else {
			pthread_barrier_init(&bar, 0, nt);
			for (i = 0; i < nt; ++i) REQUIRE(pthread_create(&th[i], 0, thread_b, x[i]) == 0);
			for (i = 0; i < nt; ++i) pthread_join(th[i], 0);
			pthread_barrier_destroy(&bar);
			mon_stat("lock_handovers", SH.handovers); mon_stat("locked_operations", SH.locked);
			printf("INTERLEAVING %016llx\n", (unsigned long long)SH.order);
		}
		dig[pass] = read_all(&SH.s, &x[0]->o[0], 6, 0);
		tl_sum = tl_n = 0; s_tree_foreach(&SH.s.tree, each); dig[pass] = dig[pass] * 31 + tl_sum;
		set_done(&SH.s);
	}
	mon_events += nt * ops;
	CHECK(O_ALWAYS, dig[0] == dig[1], "thread-result-differs", "the final content of containers shared under a lock by %u threads differs from the one obtained by a single thread", nt);
	for (i = 0; i < nt; ++i) {
		CHECK(O_ALWAYS, x[i]->dig == y[i]->dig, "thread-result-differs", "a thread sharing containers under a lock obtained results different from those it obtains alone (thread %u of %u)", i, nt);
		mon_res(x[i]->dig);
		actor_free(x[i]); actor_free(y[i]);
	}
	return 1;
}
/* mode C: readers of containers that nobody modifies */
static struct actor* RD;
struct reader { mon_rng r; uint64_t ops, dig; unsigned nobj; struct ob* miss; };
static void reader_run(struct reader* q)
{
	uint64_t k;
	nest_begin(rng_next(&q->r), 150, 300);
	for (k = 0; k < q->ops; ++k) {
		unsigned w = (unsigned)(rng_next(&q->r) % NREAD); uint64_t a = rng_next(&q->r); struct ob* o = &RD->o[rng_next(&q->r) % RD->nobj]; uint64_t v;
		if (w >= 8 && w <= 12 && (a & 7)) w = 3; /* foreach is slow */
		if ((a & 0x300) == 0) { q->miss->key = (uint32_t)a; o = q->miss; }
		enter();
		v = read_all(RD->s, o, w, a);
		leave();
		q->dig = (q->dig ^ v) * 0x100000001b3ULL; q->dig ^= q->dig >> 29;
	}
}
static void* thread_c(void* p) { pthread_barrier_wait(&bar); reader_run((struct reader*)p); return 0; }
static int case_readers(unsigned nt, uint64_t ops)
{
	struct reader q[MAXT], z[MAXT]; pthread_t th[MAXT]; unsigned i, n, round;
	n = 8 + (unsigned)rndlog(NOBJ - 8);
	RD = actor_new(rnd(), n, 0, masks[rndn(5)], 0);
	set_init(RD->s);
	for (i = 0; i < n; ++i) { RD->o[i].id = i; RD->o[i].key = (uint32_t)rnd() & RD->keymask; ob_insert(RD->s, &RD->o[i], (int)(rnd() & 1)); }
	mon_op("readers", nt, ops, n);
	for (round = 0; round < 3; ++round) {
		/* a modification between two reading phases: any state of a resize in progress */
		for (i = (unsigned)rndn(n); i--; ) { struct ob* o = &RD->o[rndn(n)]; if (o->in) ob_remove(RD->s, o, 0); else ob_insert(RD->s, o, 0); }
		/* from time to time to several blocks and segments */
		grow_arrays(RD->s, RD->s->asize + (unsigned)rndn(chance(40) ? 9000 : 80), round);
		overlaps = 0; maxover = 0; running = 0;
		pthread_barrier_init(&bar, 0, nt);
		for (i = 0; i < nt; ++i) { memset(&q[i], 0, sizeof(q[i])); q[i].r.s = rnd(); q[i].ops = ops / 3; q[i].miss = (struct ob*)calloc(1, sizeof(struct ob)); z[i] = q[i]; z[i].miss = (struct ob*)calloc(1, sizeof(struct ob)); }
		for (i = 0; i < nt; ++i) REQUIRE(pthread_create(&th[i], 0, thread_c, &q[i]) == 0);
		for (i = 0; i < nt; ++i) pthread_join(th[i], 0);
		pthread_barrier_destroy(&bar);
		mon_stat("overlapping_operations", overlaps); mon_max("max_threads_inside_at_once", maxover);
		for (i = 0; i < nt; ++i) {
			reader_run(&z[i]);
			CHECK(O_ALWAYS, z[i].dig == q[i].dig, "thread-result-differs", "a reader obtained results different from those it obtains alone (reader %u of %u)", i, nt);
			mon_res(q[i].dig); mon_stat("reader_operations", ops / 3);
			free(q[i].miss); free(z[i].miss);
		}
		mon_events += nt * (ops / 3);
	}
	set_done(RD->s); actor_free(RD);
	return 1;
}
/* mode D: tables, tries and trees of thousands of objects, one set for each thread, filled, searched and emptied */
static void actor_big(struct actor* x)
{
	struct set* s = x->s; uint64_t k, sum; unsigned i, round;
	nest_begin(rng_next(&x->r), 150, 300);
	set_init(s);
	s_hashtable_done(&s->ht); s_hashtable_init(&s->ht, x->nobj / 2);
	for (i = 0; i < x->nobj; ++i) { x->o[i].id = i; x->o[i].key = (uint32_t)mix64(i, x->keymask) & (x->keymask == 0xfff ? 0xffff : 0xffffffffu); x->o[i].in = 0; x->o[i].intree = 0; }
	for (round = 0; round < 2; ++round) {
		for (i = 0; i < x->nobj; ++i) {
			if (!x->o[i].in) ob_insert(s, &x->o[i], 0);
			if ((i & 15) == 0) { pause_at(x); enter(); put(x, read_all(s, &x->o[rn(x, x->nobj)], (unsigned)rn(x, 8), i)); leave(); }
		}
		enter();
		for (k = 0; k < x->ops; ++k) put(x, read_all(s, &x->o[rn(x, x->nobj)], (unsigned)rn(x, 6), k));
		leave();
		for (k = 8; k <= 12; ++k) { pause_at(x); put(x, read_all(s, &x->o[0], (unsigned)k, 0)); }
		s_list_sort(&s->list, cmp_tree);
		put(x, read_all(s, &x->o[0], 8, 0));
		sum = rn(x, x->nobj);
		for (i = 0; i < x->nobj; ++i) {
			struct ob* o = &x->o[(i + sum) % x->nobj];
			if (round == 0 && o->id % 5 == 0) continue;
			enter(); put(x, ob_remove(s, o, (int)(i & 1))); leave();
			if ((i & 15) == 0) { pause_at(x); put(x, read_all(s, &x->o[rn(x, x->nobj)], (unsigned)rn(x, 8), i)); }
		}
	}
	for (i = 0; i < NREAD; ++i) put(x, read_all(s, &x->o[0], i, 12345));
	set_done(s);
}
static void* thread_d(void* p) { pthread_barrier_wait(&bar); actor_big((struct actor*)p); return 0; }
static int case_big(void)
{
	struct actor* x[MAXT]; struct actor* y[MAXT]; pthread_t th[MAXT]; unsigned i, nt = 2 + (unsigned)rndn(3); uint64_t seed = rnd(), ops = (uint64_t)(4000 * mon_scale);
	unsigned top = (unsigned)(12000 * mon_scale), nobj = 200 + top / 2 + (unsigned)rndn(top / 2 + 1); int delays = (int)rndn(2), same = (int)rndn(2);
	for (i = 0; i < nt; ++i) {
		uint64_t z = same ? seed : rnd(); uint32_t m = masks[rndn(5)];
		if (same) m = masks[nt];
		x[i] = actor_new(z, nobj, ops, m, delays); y[i] = actor_new(z, nobj, ops, m, delays ? -1 : 0);
	}
	mon_op("large", nt, nobj, (uint64_t)delays);
	for (i = 0; i < nt; ++i) actor_big(y[i]);
	overlaps = 0; maxover = 0; running = 0;
	pthread_barrier_init(&bar, 0, nt);
	for (i = 0; i < nt; ++i) REQUIRE(pthread_create(&th[i], 0, thread_d, x[i]) == 0);
	for (i = 0; i < nt; ++i) pthread_join(th[i], 0);
	pthread_barrier_destroy(&bar);
	mon_stat("overlapping_operations", overlaps); mon_max("max_threads_inside_at_once", maxover); mon_max("max_objects_of_a_thread", nobj);
	for (i = 0; i < nt; ++i) {
		CHECK(O_ALWAYS, x[i]->dig == y[i]->dig, "thread-result-differs", "a thread using its own containers of %u objects obtained results different from those it obtains alone (thread %u of %u)", nobj, i, nt);
		mon_stat("thread_operations", ops + 4 * nobj);
		mon_res(x[i]->dig);
	}
	mon_events += nt * (ops + 4 * nobj);
	for (i = 0; i < nt; ++i) { actor_free(x[i]); actor_free(y[i]); }
	mon_sample("containers of their own of %u objects, %u threads", nobj, nt);
	return 1;
}
static int run_case(long index)
{
	if (strstr(mon_variant, "large")) return case_big();
	{
	unsigned nt = 2 + (unsigned)rndn(MAXT - 1); uint64_t ops = (uint64_t)((1500 + rndn(1500)) * mon_scale);
	if (ops < 60) ops = 60;
	mon_sample("%s, %u threads, %llu operations each", index % 3 == 0 ? "containers of their own" : index % 3 == 1 ? "shared under a lock" : "concurrent readers", nt, (unsigned long long)ops);
	switch (index % 3) { case 0: return case_distinct(nt, ops); case 1: return case_locked(nt, ops); default: return case_readers(nt, ops * 2); }
	}
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_thread", run_case); }
