/* Operations that only look, on memory that cannot be written: containers, nodes, objects and all the memory of the
 * library are in one arena, mapped read-only while they run, so that a write is caught even when it stores the value
 * already there; the static data of the library is compared. Operations that have nothing to do are not on read-only
 * memory (they may store what is there already) but must leave every byte as it was. */
#include "sut.h"
#include "sut_api.h"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>

struct ob { tommy_node list; tommy_tree_node tree; tommy_hashtable_node ht; tommy_hashdyn_node hd; tommy_hashlin_node hl; tommy_trie_node tr; tommy_trie_inplace_node ti; uint32_t id, tkey; uint64_t key; };
struct world {
	tommy_list list, list2; tommy_tree tree; tommy_hashtable ht; tommy_hashdyn hd; tommy_hashlin hl; tommy_trie tr; tommy_allocator al, al2; tommy_trie_inplace ti;
	tommy_array a; tommy_arrayblk ab; tommy_arrayof ao; tommy_arrayblkof abo;
};
/* ------------------------------------------------------------------ the arena */
#define ARENA ((size_t)1 << 28)
extern void* (*mon_arena_get)(size_t n);
extern void (*mon_arena_put)(void* p, size_t n);
static char* arena; static size_t top; static volatile int frozen; static size_t frozen_len;
static void* bin[40];
static unsigned bin_of(size_t n) { unsigned b = 6; while (((size_t)1 << b) < n) ++b; return b; }
static void* arena_get(size_t n)
{
	unsigned b = bin_of(n); void* p = bin[b];
	if (p) { memcpy(&bin[b], p, sizeof(void*)); return p; }
	REQUIRE(top + ((size_t)1 << b) <= ARENA);
	p = arena + top; top += (size_t)1 << b;
	return p;
}
static void arena_put(void* p, size_t n) { unsigned b = bin_of(n); memcpy(p, &bin[b], sizeof(void*)); bin[b] = p; }
/* static data of the library, in sections of its own */
extern char __start_sut_data[] __attribute__((weak)), __stop_sut_data[] __attribute__((weak)), __start_sut_bss[] __attribute__((weak)), __stop_sut_bss[] __attribute__((weak));
static unsigned char* shadow; static size_t nshadow;
static size_t statics(unsigned char* to)
{
	size_t d = (size_t)(__stop_sut_data - __start_sut_data), b = (size_t)(__stop_sut_bss - __start_sut_bss);
	if (to) { if (d) memcpy(to, __start_sut_data, d); if (b) memcpy(to + d, __start_sut_bss, b); }
	return d + b;
}
static void statics_keep(void) { if (!shadow) { nshadow = statics(0); shadow = (unsigned char*)malloc(nshadow + 1); REQUIRE(shadow); } statics(shadow); }
static void statics_check(const char* what)
{
	size_t d = (size_t)(__stop_sut_data - __start_sut_data);
	if (!nshadow) return;
	CHECK(O_FROZEN, (!d || memcmp(shadow, __start_sut_data, d) == 0) && (nshadow == d || memcmp(shadow + d, __start_sut_bss, nshadow - d) == 0), "lookup-writes-static", "%s changed static data of the library", what);
}
static const char* doing = "";
static struct sigaction old_segv;
static void on_segv(int sig, siginfo_t* si, void* ctx)
{
	char* a = (char*)si->si_addr; (void)sig; (void)ctx;
	if (frozen && a >= arena && a < arena + ARENA) {
		frozen = 0; mprotect(arena, ARENA, PROT_READ | PROT_WRITE);
		mon_report(O_FROZEN, "lookup-writes", "%s writes to the container, its memory or the objects (byte %zu of the arena)", doing, (size_t)(a - arena));
	}
	sigaction(SIGSEGV, &old_segv, 0);
}
static void freeze(void)
{
	statics_keep();
	frozen_len = (top + 4095) & ~(size_t)4095;
	REQUIRE(mprotect(arena, frozen_len, PROT_READ) == 0);
	frozen = 1;
	mon_heap_forbid = 1;
	mon_stat("frozen_states", 1); mon_max("max_bytes_frozen", frozen_len);
}
static void thaw(void)
{
	frozen = 0; mon_heap_forbid = 0;
	REQUIRE(mprotect(arena, frozen_len, PROT_READ | PROT_WRITE) == 0);
	statics_check("a lookup");
}
/* ------------------------------------------------------------------ the world */
static struct world* W; static struct ob* O; static uint32_t N;
static unsigned char* in; static unsigned char* intree; static uint32_t nin, ntree; static unsigned asize; static uint64_t keymask; static int twidth;
static void* blk[64]; static unsigned nblk;
static uint64_t sum; static uint64_t visits;
static int cmp_tree(const void* a, const void* b) { uint64_t x = ((const struct ob*)a)->key, y = ((const struct ob*)b)->key; ++visits; return x < y ? -1 : x > y; }
static int cmp_exact(const void* a, const void* b) { ++visits; return a != b; }
static int cmp_none(const void* a, const void* b) { (void)a; (void)b; ++visits; return 1; }
static void each(void* b) { sum += ((struct ob*)b)->id * 2654435761u; ++visits; }
static void each_arg(void* a, void* b) { *(uint64_t*)a += ((struct ob*)b)->id * 2654435761u; ++visits; }
static uint64_t newkey(void) { return rnd() & keymask; }
static uint32_t some_in(void) { uint32_t i = (uint32_t)rndn(N), k; for (k = 0; k < N; ++k, i = i + 1 == N ? 0 : i + 1) if (in[i]) return i; return 0; }
static uint32_t some_out(void) { uint32_t i = (uint32_t)rndn(N), k; for (k = 0; k < N; ++k, i = i + 1 == N ? 0 : i + 1) if (!in[i]) return i; return N; }
static void put_in(uint32_t i)
{
	struct ob* o = &O[i];
	o->key = newkey(); o->tkey = (uint32_t)(o->key << twidth);
	if (rnd() & 1) s_list_insert_head(&W->list, &o->list, o); else s_list_insert_tail(&W->list, &o->list, o);
	intree[i] = s_tree_insert(&W->tree, &o->tree, o) == (void*)o; ntree += intree[i];
	s_hashtable_insert(&W->ht, &o->ht, o, (tommy_hash_t)o->key); s_hashdyn_insert(&W->hd, &o->hd, o, (tommy_hash_t)o->key); s_hashlin_insert(&W->hl, &o->hl, o, (tommy_hash_t)o->key);
	s_trie_insert(&W->tr, &o->tr, o, o->tkey); s_trie_inplace_insert(&W->ti, &o->ti, o, o->tkey);
	in[i] = 1; ++nin;
}
static void take_out(uint32_t i)
{
	struct ob* o = &O[i];
	s_list_remove_existing(&W->list, &o->list);
	if (intree[i]) { s_tree_remove_existing(&W->tree, &o->tree); --ntree; intree[i] = 0; }
	s_hashtable_remove_existing(&W->ht, &o->ht); s_hashdyn_remove_existing(&W->hd, &o->hd); s_hashlin_remove_existing(&W->hl, &o->hl);
	s_trie_remove_existing(&W->tr, &o->tr); s_trie_inplace_remove_existing(&W->ti, &o->ti);
	in[i] = 0; --nin;
}
#define LOOK(name, expr) do { doing = name; mon_op(name, what, nin, 0); mon_budget(1ULL << 40); v = v * 31 + (uint64_t)(expr); mon_op_end(); } while (0)
#define LOOKV(name, call) do { doing = name; mon_op(name, what, nin, 0); mon_budget(1ULL << 40); call; mon_op_end(); } while (0)
#define FOUND(name, expr) do { void* r_; doing = name; mon_op(name, what, nin, hit); mon_budget(1ULL << 40); r_ = (expr); mon_op_end(); CHECK(O_FROZEN, !hit || r_ == (void*)o, "lookup-result", "%s on read-only memory did not find an object", name); v = v * 31 + (r_ != 0); } while (0)
#define NLOOK 24
static void look(unsigned what)
{
	uint64_t v = 0, k, t; tommy_node* n; tommy_trie_inplace_node* m; struct ob* o; static struct ob probe; int hit = nin && chance(60), same; unsigned i;
	o = hit ? &O[some_in()] : 0;
	k = hit ? o->key : newkey(); t = hit ? o->tkey : chance(80) ? (uint32_t)(k << twidth) : (uint32_t)rnd();
	same = (int)(rnd() & 1);
	probe.key = k; visits = sum = 0;
	switch (what) {
	case 0: LOOK("tree_search", s_tree_search(&W->tree, &probe) != 0); break;
	case 1: LOOK("tree_search_compare", s_tree_search_compare(&W->tree, cmp_tree, &probe) != 0); break;
	case 2: FOUND("hashtable_search", s_hashtable_search(&W->ht, same ? cmp_exact : hit ? cmp_exact : cmp_none, o, (tommy_hash_t)k)); break;
	case 3: FOUND("hashdyn_search", s_hashdyn_search(&W->hd, same ? cmp_exact : hit ? cmp_exact : cmp_none, o, (tommy_hash_t)k)); break;
	case 4: FOUND("hashlin_search", s_hashlin_search(&W->hl, same ? cmp_exact : hit ? cmp_exact : cmp_none, o, (tommy_hash_t)k)); break;
	case 5: LOOKV("hashtable_bucket", for (n = s_hashtable_bucket(&W->ht, (tommy_hash_t)k); n; n = n->next) v += n->data != 0); break;
	case 6: LOOKV("hashdyn_bucket", for (n = s_hashdyn_bucket(&W->hd, (tommy_hash_t)k); n; n = n->next) v += n->data != 0); break;
	case 7: LOOKV("hashlin_bucket", for (n = s_hashlin_bucket(&W->hl, (tommy_hash_t)k); n; n = n->next) v += n->data != 0); break;
	case 8: LOOK("trie_search", s_trie_search(&W->tr, (tommy_key_t)t) != 0); LOOKV("trie_bucket", for (n = s_trie_bucket(&W->tr, (tommy_key_t)t); n; n = n->next) v += n->data != 0); CHECK(O_FROZEN, !hit || v, "lookup-result", "a trie on read-only memory did not find a key"); break;
	case 9: LOOK("trie_inplace_search", s_trie_inplace_search(&W->ti, (tommy_key_t)t) != 0); LOOKV("trie_inplace_bucket", for (m = s_trie_inplace_bucket(&W->ti, (tommy_key_t)t); m; m = m->next) v += m->data != 0); CHECK(O_FROZEN, !hit || v, "lookup-result", "an in-place trie on read-only memory did not find a key"); break;
	case 10: LOOK("list_count", s_list_count(&W->list)); LOOK("list_count", s_list_count(&W->list2)); break;
	case 11: LOOK("count", s_tree_count(&W->tree)); LOOK("count", s_hashtable_count(&W->ht)); LOOK("count", s_hashdyn_count(&W->hd)); LOOK("count", s_hashlin_count(&W->hl)); LOOK("count", s_trie_count(&W->tr)); LOOK("count", s_trie_inplace_count(&W->ti)); break;
	case 12: LOOK("memory_usage", s_tree_memory_usage(&W->tree)); LOOK("memory_usage", s_hashtable_memory_usage(&W->ht)); LOOK("memory_usage", s_hashdyn_memory_usage(&W->hd)); LOOK("memory_usage", s_hashlin_memory_usage(&W->hl)); LOOK("memory_usage", s_trie_memory_usage(&W->tr)); LOOK("memory_usage", s_trie_inplace_memory_usage(&W->ti)); LOOK("memory_usage", s_allocator_memory_usage(&W->al)); LOOK("memory_usage", s_allocator_memory_usage(&W->al2)); break;
	case 13: LOOK("list_head", s_list_head(&W->list) != 0); LOOK("list_tail", s_list_tail(&W->list) != 0); LOOK("list_empty", s_list_empty(&W->list) != 0); LOOK("list_empty", s_list_empty(&W->list2) != 0); LOOK("list_tail", s_list_tail(&W->list2) != 0); LOOK("list_head", s_list_head(&W->list2) != 0); break;
	case 14: LOOKV("list_foreach", s_list_foreach(&W->list, each)); LOOKV("list_foreach_arg", s_list_foreach_arg(&W->list, each_arg, &sum)); CHECK(O_FROZEN, visits == 2ULL * nin, "lookup-result", "foreach on read-only memory"); break;
	case 15: LOOKV("tree_foreach", s_tree_foreach(&W->tree, each)); LOOKV("tree_foreach_arg", s_tree_foreach_arg(&W->tree, each_arg, &sum)); CHECK(O_FROZEN, visits == 2ULL * ntree, "lookup-result", "foreach on read-only memory"); break;
	case 16: LOOKV("hashtable_foreach", s_hashtable_foreach(&W->ht, each)); LOOKV("hashtable_foreach_arg", s_hashtable_foreach_arg(&W->ht, each_arg, &sum)); CHECK(O_FROZEN, visits == 2ULL * nin, "lookup-result", "foreach on read-only memory"); break;
	case 17: LOOKV("hashdyn_foreach", s_hashdyn_foreach(&W->hd, each)); LOOKV("hashdyn_foreach_arg", s_hashdyn_foreach_arg(&W->hd, each_arg, &sum)); CHECK(O_FROZEN, visits == 2ULL * nin, "lookup-result", "foreach on read-only memory"); break;
	case 18: LOOKV("hashlin_foreach", s_hashlin_foreach(&W->hl, each)); LOOKV("hashlin_foreach_arg", s_hashlin_foreach_arg(&W->hl, each_arg, &sum)); CHECK(O_FROZEN, visits == 2ULL * nin, "lookup-result", "foreach on read-only memory"); break;
	case 19: LOOK("array_size", s_array_size(&W->a)); LOOK("array_size", s_arrayblk_size(&W->ab)); LOOK("array_size", s_arrayof_size(&W->ao)); LOOK("array_size", s_arrayblkof_size(&W->abo));
		LOOK("array_memory_usage", s_array_memory_usage(&W->a)); LOOK("array_memory_usage", s_arrayblk_memory_usage(&W->ab)); LOOK("array_memory_usage", s_arrayof_memory_usage(&W->ao)); LOOK("array_memory_usage", s_arrayblkof_memory_usage(&W->abo)); break;
	default: for (i = 0; i < 12 && asize; ++i) {
			unsigned p = chance(30) ? asize - 1 : chance(30) ? (unsigned)((1ULL << rndn(17)) - rndn(2)) % asize : (unsigned)rndn(asize);
			LOOK("array_get", (uintptr_t)s_array_get(&W->a, p)); LOOK("arrayblk_get", (uintptr_t)s_arrayblk_get(&W->ab, p));
			LOOK("array_ref", (uintptr_t)*s_array_ref(&W->a, p)); LOOK("arrayblk_ref", (uintptr_t)*s_arrayblk_ref(&W->ab, p));
			LOOK("arrayof_ref", *(unsigned char*)s_arrayof_ref(&W->ao, p)); LOOK("arrayblkof_ref", *(unsigned char*)s_arrayblkof_ref(&W->abo, p));
		}
	}
	mon_res(v + visits);
	mon_stat("lookups_on_read_only_memory", 1); mon_stat(hit ? "lookups_of_contained" : "lookups_of_absent", 1);
}
/* ------------------------------------------------------------------ operations with nothing to do */
static uint64_t digest(void)
{
	const uint64_t* p = (const uint64_t*)arena; size_t n = top / 8, i; uint64_t a = 1, b = 2, c = 3, d = 4;
	for (i = 0; i + 4 <= n; i += 4) { a = (a ^ p[i]) * 0x9e3779b97f4a7c15ULL; b = (b ^ p[i + 1]) * 0xff51afd7ed558ccdULL; c = (c ^ p[i + 2]) * 0xc4ceb9fe1a85ec53ULL; d = (d ^ p[i + 3]) * 0xbf58476d1ce4e5b9ULL; a ^= a >> 32; b ^= b >> 32; c ^= c >> 32; d ^= d >> 32; }
	return mix64(mix64(a, b), mix64(c, d));
}
#define NIDLE 12
static void idle(unsigned what)
{
	static struct ob extra; uint64_t before, after, v = 0, k = newkey(); void* r = 0; uint32_t i; const char* name = "?"; uint64_t t; unsigned tries;
	struct ob* o = nin ? &O[some_in()] : 0;
	memset(&extra, 0x5a, sizeof(extra));
	extra.id = ~0u; extra.key = k; t = (uint32_t)(k << twidth) ^ (chance(20) ? (uint32_t)1 << rndn(32) : 0);
	statics_keep();
	before = digest();
	mon_heap_forbid = 1; mon_budget(1ULL << 40);
	switch (what) {
	case 0: name = "hashtable_remove of nothing"; mon_op(name, k, 0, 0); r = s_hashtable_remove(&W->ht, cmp_none, &extra, (tommy_hash_t)(o && chance(50) ? o->key : k)); break;
	case 1: name = "hashdyn_remove of nothing"; mon_op(name, k, 0, 0); r = s_hashdyn_remove(&W->hd, cmp_none, &extra, (tommy_hash_t)(o && chance(50) ? o->key : k)); break;
	case 2: name = "hashlin_remove of nothing"; mon_op(name, k, 0, 0); r = s_hashlin_remove(&W->hl, cmp_none, &extra, (tommy_hash_t)(o && chance(50) ? o->key : k)); break;
	case 3: name = "tree_remove of nothing"; mon_op(name, k, 0, 0);
		for (tries = 0; tries < 4 && s_tree_search(&W->tree, &extra); ++tries) extra.key = newkey();
		if (!s_tree_search(&W->tree, &extra)) r = s_tree_remove(&W->tree, &extra);
		break;
	case 4: name = "trie_remove of nothing"; mon_op(name, t, 0, 0);
		for (tries = 0; tries < 4 && s_trie_bucket(&W->tr, (tommy_key_t)t); ++tries) t = (uint32_t)rnd();
		if (!s_trie_bucket(&W->tr, (tommy_key_t)t)) r = s_trie_remove(&W->tr, (tommy_key_t)t);
		break;
	case 5: name = "trie_inplace_remove of nothing"; mon_op(name, t, 0, 0);
		for (tries = 0; tries < 4 && s_trie_inplace_bucket(&W->ti, (tommy_key_t)t); ++tries) t = (uint32_t)rnd();
		if (!s_trie_inplace_bucket(&W->ti, (tommy_key_t)t)) r = s_trie_inplace_remove(&W->ti, (tommy_key_t)t);
		break;
	case 6: name = "tree_insert of an element equal to one contained"; mon_op(name, k, 0, 0);
		if (o && intree[o->id]) { void* q; extra.key = o->key; q = s_tree_insert(&W->tree, &extra.tree, &extra); CHECK(O_FROZEN, q && q != (void*)&extra, "idle-result", "%s took it", name); }
		break;
	case 7: name = "array_grow to a size not larger"; mon_op(name, asize, 0, 0); s_array_grow(&W->a, (tommy_size_t)rndn(asize + 1)); s_arrayof_grow(&W->ao, (tommy_size_t)rndn(asize + 1)); break;
	case 8: name = "arrayblk_grow to a size not larger"; mon_op(name, asize, 0, 0); s_arrayblk_grow(&W->ab, (tommy_size_t)rndn(asize + 1)); s_arrayblkof_grow(&W->abo, (tommy_size_t)rndn(asize + 1)); break;
	case 9: name = "list_concat of an empty list"; mon_op(name, nin, 0, 0); { tommy_list e; s_list_init(&e); s_list_concat(&W->list, &e); } break;
	case 10: name = "list_sort of an empty list"; mon_op(name, 0, 0, 0); s_list_sort(&W->list2, cmp_tree); break;
	default: name = "array_grow to the same size"; mon_op(name, asize, 0, 0); s_array_grow(&W->a, asize); s_arrayof_grow(&W->ao, asize); s_arrayblk_grow(&W->ab, asize); s_arrayblkof_grow(&W->abo, asize);
	}
	mon_op_end();
	mon_heap_forbid = 0;
	after = digest();
	doing = name;
	CHECK(O_FROZEN, r == 0, "idle-result", "%s returned an object", name);
	CHECK(O_FROZEN, before == after, "idle-changes", "%s changed the container, its memory or an object", name);
	statics_check(name);
	mon_res(v);
	mon_stat("idle_operations", 1);
	(void)i;
}
static void looks(unsigned n)
{
	unsigned light = nin > 4000;
	freeze();
	while (n--) { unsigned w = (unsigned)rndn(NLOOK); if (light && ((w >= 14 && w <= 18) || w == 10) && chance(90)) w = (unsigned)rndn(10); look(w); }
	thaw();
}
static void grow(unsigned n)
{
	unsigned i;
	s_array_grow(&W->a, n); s_arrayblk_grow(&W->ab, n); s_arrayof_grow(&W->ao, n); s_arrayblkof_grow(&W->abo, n);
	for (i = asize; i < n; i += 1 + (unsigned)rndn(n / 50 + 1)) { s_array_set(&W->a, i, (void*)(uintptr_t)rnd()); s_arrayblk_set(&W->ab, i, (void*)(uintptr_t)rnd()); memset(s_arrayof_ref(&W->ao, i), (int)rnd(), 12); memset(s_arrayblkof_ref(&W->abo, i), (int)rnd(), 20); }
	if (n > asize) asize = n;
}
static int run_case(long index)
{
	unsigned phases = 4 + (unsigned)rndn(10), ph, maxin = 0, maxa; uint32_t i; uint64_t budget;
	static const unsigned masks[] = { 64, 64, 64, 16, 12, 8, 4, 2 };
	if (!arena) {
		struct sigaction sa;
		arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		REQUIRE(arena != (char*)MAP_FAILED);
		memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
		sigaction(SIGSEGV, &sa, &old_segv);
		mon_arena_get = arena_get; mon_arena_put = arena_put;
	}
	top = 0; memset(bin, 0, sizeof(bin));
	mon_heap_fill = 1 + (unsigned)rndn(3);
	W = (struct world*)arena_get(sizeof(*W)); mon_garbage(W, sizeof(*W));
	N = 1 + (uint32_t)(index % 32 == 31 ? 20000 + rndn(40000) : index % 4 == 3 ? 100 + rndn(5000) : chance(80) ? 10 + rndn(600) : rndlog(30));
	O = (struct ob*)arena_get(N * sizeof(*O)); mon_garbage(O, N * sizeof(*O));
	in = (unsigned char*)calloc(N, 1); intree = (unsigned char*)calloc(N, 1); REQUIRE(in && intree);
	for (i = 0; i < N; ++i) O[i].id = i;
	nin = ntree = asize = nblk = 0;
	{ unsigned b = masks[rndn(8)]; keymask = b == 64 ? ~(uint64_t)0 : ((uint64_t)1 << b) - 1; if (chance(15)) keymask <<= rndn(40); if (chance(10)) keymask = mon_word(); if (N > 10000 && b < 16) keymask = ~(uint64_t)0; }
	twidth = chance(30) ? (int)rndn(24) : 0;
	s_list_init(&W->list); s_list_init(&W->list2); s_tree_init(&W->tree, cmp_tree); s_hashtable_init(&W->ht, (tommy_size_t)(1 + rndlog(2 * N))); s_hashdyn_init(&W->hd); s_hashlin_init(&W->hl);
	s_allocator_init(&W->al, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); s_allocator_init(&W->al2, 8 + rndn(100), 8); s_trie_init(&W->tr, &W->al); s_trie_inplace_init(&W->ti);
	s_array_init(&W->a); s_arrayblk_init(&W->ab); s_arrayof_init(&W->ao, 12); s_arrayblkof_init(&W->abo, 20);
	maxa = index % 8 == 7 ? 70000 : 3000;
	looks(NLOOK);
	budget = index % 32 == 31 ? 200000 : 6000;
	for (ph = 0; ph < phases && budget; ++ph) {
		unsigned up = ph == 0 ? 100 : (unsigned)rndn(3) * 50; uint64_t steps = ph == 0 || chance(50) ? N / 2 + rndn(2 * N) : 1 + rndlog(2 * N), target = up == 100 ? 1 + rndn(N) : rndn(N);
		unsigned rate = (unsigned)(N > 5000 ? 1 : chance(40) ? 100 : 10);
		while (steps-- && budget) {
			int ins = up == 100 ? 1 : up == 0 ? 0 : nin < target || chance(50);
			--budget;
			if (ins) { i = some_out(); if (i < N) put_in(i); else break; }
			else if (nin) take_out(some_in()); else break;
			if (nin > maxin) maxin = nin;
			if (chance(rate) && (rate > 1 || chance(30))) looks(1 + (unsigned)rndn(rate > 50 ? 4 : 12));
			if (top < (1 << 17) ? chance(6) : top < (1 << 20) ? chance(1) : rnd() % 2000 == 0) idle((unsigned)rndn(NIDLE));
			if (chance(2) && N < 5000) { if (nblk < 64 && chance(60)) blk[nblk++] = s_allocator_alloc(&W->al2); else if (nblk) s_allocator_free(&W->al2, blk[--nblk]); }
			if (chance(1) && N < 5000) { grow((unsigned)(asize + rndlog(maxa / 8)) % maxa); looks(2); }
		}
		if (chance(20)) { grow((unsigned)rndlog(maxa)); }
		if (chance(20)) { s_list_sort(&W->list, cmp_tree); }
		looks(2 * NLOOK); for (i = 0; i < (top > (1 << 20) ? 1u : 6u); ++i) idle((unsigned)rndn(NIDLE));
	}
	while (nin && chance(99)) take_out(some_in());
	looks(NLOOK);
	s_hashtable_done(&W->ht); s_hashdyn_done(&W->hd); s_hashlin_done(&W->hl); s_allocator_done(&W->al); s_allocator_done(&W->al2);
	s_array_done(&W->a); s_arrayblk_done(&W->ab); s_arrayof_done(&W->ao); s_arrayblkof_done(&W->abo);
	mon_heap_reset();
	free(in); free(intree); in = intree = 0;
	mon_max("max_objects", maxin);
	mon_sample("%u objects, keys in %llx, %u phases, arrays of %u, %zu bytes of arena", N, (unsigned long long)keymask, phases, asize, top);
	return maxin > 8;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_frozen", run_case); }
