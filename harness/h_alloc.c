/* Histories over block allocators: alignment, ownership, disjointness, content, reuse, heap discipline. */
#include "sut.h"
#include "sut_api.h"
#include <sys/mman.h>

struct lb { unsigned char* p; uint64_t seed; };
#define MAXI 4
static struct al {
	tommy_allocator* c; size_t bs, as, eff; struct lb* live; size_t n, cap; uint64_t seed;
	unsigned char** freed; size_t nfreed, cfreed; /* freed and not handed out again */
	uint64_t hbytes, max, peak, fit, hbefore;
} A[MAXI];
static int na;
static const char* has(const char* tok) { return strstr(mon_variant, tok); }
static uint64_t hb0, hr0, st0;
#define BEGIN(a) do { hb0 = H.live_bytes; hr0 = mon_heap_events(); st0 = mon_steps; mon_budget(100000000ULL); } while (0)
#define END(a) do { st0 = mon_steps - st0; mon_op_end(); (a)->hbytes += H.live_bytes - hb0; mon_heap_forbid = mon_heap_nofree = 0; } while (0)
#define FORBID() (mon_heap_forbid = (mon_mask & (O_HEAP | O_ADDR)) != 0)

/* constant work, but for cutting a new segment in blocks */
static void cost_check(struct al* a, const char* op, uint64_t extra)
{
	uint64_t lim = 96 + extra;
	if (!mon_have_steps) return;
	mon_max(extra ? op[0] == 'd' ? "max_steps_done" : "max_steps_with_request" : "max_steps_without_request", st0);
	mon_stat("cost_checks", 1);
	CHECK(O_COST, st0 <= lim, "allocator-not-constant", "%s on an allocator of %zu live blocks of %zu bytes aligned at %zu executed %llu basic blocks, at most %llu are due", op, a->n, a->bs, a->as, (unsigned long long)st0, (unsigned long long)lim);
}
/* of a block of gigabytes only the two ends are looked at */
#define SKIP(i, n) do { if ((i) == 4096 && (n) > ((size_t)1 << 24)) (i) = ((n) - 4096) & ~(size_t)7; } while (0)
static void fill(unsigned char* p, size_t n, uint64_t seed) { size_t i; uint64_t v = 0; for (i = 0; i < n; ++i) { SKIP(i, n); if ((i & 7) == 0) v = mix64(seed, i); p[i] = (unsigned char)(v >> (8 * (i & 7))); } }
static void verify(struct al* a, struct lb* b, const char* when)
{
	size_t i; uint64_t v = 0;
	for (i = 0; i < a->bs; ++i) {
		SKIP(i, a->bs);
		if ((i & 7) == 0) v = mix64(b->seed, i);
		if (b->p[i] != (unsigned char)(v >> (8 * (i & 7)))) {
			mon_report(O_ADDR | O_MEM, "block-content-lost", "byte %zu of a live block of %zu bytes (alignment %zu, %zu live) changed, seen %s", i, a->bs, a->as, a->n, when);
			return;
		}
	}
	mon_stat("blocks_verified", 1);
}
static void usage_check(struct al* a)
{
	uint64_t u; BEGIN(a); FORBID(); u = s_allocator_memory_usage(a->c); END(a); cost_check(a, "memory usage", 0);
	CHECK(O_USE, u == (uint64_t)a->n * a->eff, "wrong-memory-usage", "an allocator of %zu live blocks of %zu bytes aligned at %zu reports %llu bytes instead of %llu", a->n, a->bs, a->as, (unsigned long long)u, (unsigned long long)a->n * a->eff);
	mon_stat("usage_checks", 1);
	mon_res(u);
}
/* memory in proportion to the largest number of blocks in use together: a segment of less than a page, or just long
 * enough for a block, is requested only after all the blocks fitting in the previous ones were handed out */
static void economy_check(struct al* a, size_t segs)
{
	uint64_t most = a->eff + a->as + 64 > 4096 ? a->eff + a->as + 64 : 4096, lost = 2 * sizeof(void*) + (a->as < sizeof(void*) ? sizeof(void*) : a->as) - 1;
	if (segs) {
		CHECK(O_SIZE, a->fit <= a->n - 1, "memory-out-of-proportion", "an allocator of blocks of %zu bytes aligned at %zu requests memory with only %zu in use, though %llu fit in what it holds", a->bs, a->as, a->n - 1, (unsigned long long)a->fit);
		CHECK(O_SIZE, segs == 1, "memory-out-of-proportion", "%zu segments requested for one block", segs);
		CHECK(O_SIZE, a->hbytes - a->hbefore <= most, "memory-out-of-proportion", "a segment of %llu bytes was requested for blocks of %zu bytes aligned at %zu", (unsigned long long)(a->hbytes - a->hbefore), a->bs, a->as);
		CHECK(O_SIZE, a->eff > 64 || a->as > 64 || (a->hbytes - a->hbefore > lost && (a->hbytes - a->hbefore - lost) / a->eff >= 7), "memory-requested-too-often", "a segment of %llu bytes was requested for blocks of %zu bytes aligned at %zu: room for too few of them", (unsigned long long)(a->hbytes - a->hbefore), a->bs, a->as);
		if (a->hbytes - a->hbefore > lost) a->fit += (a->hbytes - a->hbefore - lost) / a->eff;
	} else CHECK(O_SIZE, a->hbytes == a->hbefore, "memory-out-of-proportion", "an allocator holds %llu bytes of heap instead of %llu", (unsigned long long)a->hbytes, (unsigned long long)a->hbefore);
	a->hbefore = a->hbytes;
	mon_stat("economy_checks", 1);
	if (a->n == 0) CHECK(O_SIZE, a->peak || a->hbytes == 0, "memory-before-use", "an unused allocator holds %llu bytes", (unsigned long long)a->hbytes);
}
static void do_alloc(int x)
{
	struct al* a = &A[x]; unsigned char* p; size_t i, before = H.live, need; uintptr_t base; size_t bsz; int look = chance(4);
	mon_op("alloc", (uint64_t)x, a->n, a->nfreed);
	BEGIN(a);
	if (a->nfreed) FORBID();
	mon_heap_nofree = (mon_mask & O_HEAP) != 0;
	p = (unsigned char*)s_allocator_alloc(a->c);
	END(a); cost_check(a, "alloc", mon_heap_events() == hr0 ? 0 : 64 + 10 * (4096 / a->eff));
	CHECK(O_ADDR, p != 0, "null-block", "alloc returned 0");
	need = a->as < sizeof(void*) ? sizeof(void*) : a->as;
	CHECK(O_ADDR, (uintptr_t)p % need == 0, "misaligned-block", "a block of %zu bytes at %p is not aligned at %zu", a->bs, (void*)p, need);
	if (H.live < 64 || H.live != before || look) {
		CHECK(O_ADDR, mon_heap_owner(p, a->bs > sizeof(void*) ? a->bs : sizeof(void*), &base, &bsz), "block-outside-memory", "a block of %zu bytes aligned at %zu is not inside the memory the allocator owns", a->bs, a->as);
		mon_stat("blocks_located", 1);
	}
	for (i = a->nfreed; i-- > 0; ) if (a->freed[i] == p) { a->freed[i] = a->freed[--a->nfreed]; mon_stat("blocks_reused", 1); break; }
	if (H.live != before) mon_stat("segments_requested", H.live - before);
	if (a->n == a->cap) { a->cap = a->cap ? a->cap * 2 : 64; a->live = (struct lb*)realloc(a->live, a->cap * sizeof(struct lb)); REQUIRE(a->live); }
	a->live[a->n].p = p; a->live[a->n].seed = a->seed++ * 977 + 13;
	fill(p, a->bs, a->live[a->n].seed);
	++a->n;
	if (a->n > a->max) a->max = a->n;
	if (a->n > a->peak) a->peak = a->n;
	if (H.live != before || look) economy_check(a, (size_t)(H.live - before));
	mon_stat("allocs", 1);
	mon_res(a->n); /* where segments end depends on addresses */
}
static void do_free(int x, size_t k)
{
	struct al* a = &A[x]; struct lb b = a->live[k];
	mon_op("free", (uint64_t)x, k, 0);
	verify(a, &b, "when freed");
	a->live[k] = a->live[--a->n];
	BEGIN(a); FORBID(); s_allocator_free(a->c, b.p); END(a); cost_check(a, "free", 0);
	if (a->nfreed == a->cfreed) { a->cfreed = a->cfreed ? a->cfreed * 2 : 64; a->freed = (unsigned char**)realloc(a->freed, a->cfreed * sizeof(*a->freed)); REQUIRE(a->freed); }
	a->freed[a->nfreed++] = b.p;
	mon_stat("frees", 1);
	mon_res(a->n);
}
static int cmp_p(const void* x, const void* y) { uintptr_t a = *(const uintptr_t*)x, b = *(const uintptr_t*)y; return a < b ? -1 : a > b; }
static void audit(void)
{
	struct ext { uintptr_t a, e; } *v; size_t n = 0, m = 0, i; int x;
	for (x = 0; x < na; ++x) n += A[x].n;
	v = (struct ext*)malloc((n + 1) * sizeof(*v)); REQUIRE(v);
	for (x = 0; x < na; ++x) {
		usage_check(&A[x]);
		for (i = 0; i < A[x].n; ++i) { verify(&A[x], &A[x].live[i], "in an audit"); v[m].a = (uintptr_t)A[x].live[i].p; v[m].e = v[m].a + (A[x].bs > sizeof(void*) ? A[x].bs : sizeof(void*)); ++m; }
	}
	qsort(v, m, sizeof(*v), cmp_p);
	for (i = 1; i < m; ++i) CHECK(O_ADDR, v[i - 1].e <= v[i].a, "blocks-overlap", "two live blocks overlap: [%p,%p) and [%p,%p)", (void*)v[i - 1].a, (void*)v[i - 1].e, (void*)v[i].a, (void*)v[i].e);
	free(v);
	if (H.live < 3000) mon_heap_audit();
	mon_stat("full_audits", 1);
}
static void do_done(int x)
{
	struct al* a = &A[x]; size_t i;
	for (i = 0; i < a->n; ++i) verify(a, &a->live[i], "before done");
	mon_op("done", (uint64_t)x, a->n, 0);
	BEGIN(a); s_allocator_done(a->c); END(a); cost_check(a, "done", 16 * (mon_heap_events() - hr0));
	CHECK(O_HEAP | O_ADDR, a->hbytes == 0, "heap-leak", "an allocator left %llu bytes after done", (unsigned long long)a->hbytes);
	a->n = a->nfreed = 0; a->peak = a->fit = a->hbefore = 0;
	usage_check(a);
	mon_res(0);
}
static int lazy = -1; /* blocks of hundreds of megabytes are given without being touched */
static int run_case(long index)
{
	int x, i, ops; uint64_t total = 0; char desc[200]; int dl = 0; size_t ptr = sizeof(void*);
	mon_heap_fill = (unsigned)rndn(4);
	na = 1 + (int)rndn(MAXI);
	if (has("huge")) {
		void* v = sizeof(void*) < 8 ? MAP_FAILED : mmap(0, (size_t)400 << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (v == MAP_FAILED) { mon_stat("huge_cases_skipped", 1); return 0; }
		munmap(v, (size_t)400 << 30);
		if (lazy < 0) {
			tommy_allocator t; uint64_t r = mon_rss();
			s_allocator_init(&t, (tommy_size_t)1 << 28, 0); s_allocator_alloc(&t); lazy = mon_rss() - r < (uint64_t)100 << 20; s_allocator_done(&t);
		}
		if (!lazy) { mon_stat("huge_cases_skipped", 1); return 0; } /* blocks are written as they are given: memory is the limit */
		if (na > 2) na = 2;
	}
	memset(A, 0, sizeof(A));
	for (x = 0; x < na; ++x) {
		struct al* a = &A[x]; size_t al;
		static const size_t bss[] = { 1, 4, 8, 12, 16, 24, 32, 40, 48, 64, 96, 100, 128, 504, 1000, 1008, 1344, 2016, 4000, 4016, 4024, 4032, 4033, 4096, 5000, 20000 };
		switch (rndn(6)) { case 0: al = 1 + rndn(16); if (al > ptr) al = ptr; break; case 1: al = ptr; break; case 2: al = ptr << rndn(5); break; case 3: al = (size_t)1 << (3 + rndn(11)); break; case 4: al = ptr * (1 + rndn(40)); break; default: al = 0; }
		a->bs = index % 3 == 0 ? 1 + rndlog(6000) : index % 3 == 1 ? bss[rndn(26)] : 1 + rndn(300);
		a->as = al;
		if (chance(12)) a->bs = 1 + mon_size(20000);
		if (has("huge")) { a->bs = ((size_t)1 << 29) + rndlog(((uint64_t)6 << 30) - 1); if (chance(50)) a->bs = ((size_t)1 << (30 + rndn(4))) + rndn(40) - 20; }
		if (has("pow2")) { a->as = (size_t)1 << rndn(13); }
		a->eff = a->as < ptr ? ptr : a->as;
		a->eff = (a->bs + a->eff - 1) / a->eff * a->eff;
		a->seed = rnd();
		a->c = (tommy_allocator*)malloc(sizeof(tommy_allocator)); REQUIRE(a->c);
		mon_garbage(a->c, sizeof(tommy_allocator));
		mon_heap_skew = 16 * (unsigned)rndn(64);
		mon_op("init", (uint64_t)x, a->bs, a->as);
		BEGIN(a); s_allocator_init(a->c, (tommy_size_t)a->bs, (tommy_size_t)a->as); END(a);
		mon_res(0);
		usage_check(a); economy_check(a, 0);
		dl += snprintf(desc + dl, sizeof(desc) - (size_t)dl, "%s%zu@%zu", x ? ", " : "", a->bs, a->as);
	}
	ops = 10 + (int)rndn(40);
	for (i = 0; i < ops; ++i) {
		struct al* a; size_t n, lim;
		x = (int)rndn((uint64_t)na); a = &A[x];
		mon_heap_skew = 16 * (unsigned)rndn(64);
		lim = (size_t)(3000000 / (a->eff + 1)); if (lim > 3000) lim = 3000; if (index % 16 == 15) lim *= 4;
		if (has("huge")) lim = 6;
		switch (rndn(7)) {
		case 0: case 1: n = 1 + (size_t)rndlog(lim); while (n-- && a->n < lim) do_alloc(x); break;
		case 2: n = (size_t)rndn(a->n + 1); while (n--) do_free(x, (size_t)rndn(a->n)); break;
		case 3: n = 20 + (size_t)rndlog(500); while (n--) { int y = (int)rndn((uint64_t)na); if (chance(55) && A[y].n < lim) do_alloc(y); else if (A[y].n) do_free(y, chance(50) ? A[y].n - 1 : (size_t)rndn(A[y].n)); } break;
		case 4: while (a->n) do_free(x, chance(50) ? 0 : a->n - 1); break;
		case 5: if (chance(30)) do_done(x); break; /* and it can be used again */
		default: audit();
		}
		total += a->n;
		usage_check(a);
		if (chance(20)) audit();
	}
	audit();
	for (x = 0; x < na; ++x) { mon_max("max_live_blocks", A[x].max); do_done(x); free(A[x].c); free(A[x].live); free(A[x].freed); if (x + 1 < na) { A[x].n = 0; } }
	if (mon_mask & (O_HEAP | O_ADDR)) mon_heap_leakcheck("done of every allocator");
	mon_sample("block@alignment %s; %d phases", desc, ops);
	mon_heap_reset();
	return total >= 16;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_alloc", run_case); }
