/* Histories over the four array types: content, size, stable and disjoint addresses, heap discipline. */
#include "sut.h"
#include "sut_api.h"
#include <sys/mman.h>

enum { AR, AB, AO, BO, NKIND };
static const char* kname[NKIND] = { "array", "arrayblk", "arrayof", "arrayblkof" };
struct cell { uint64_t pos; unsigned char* addr; uint32_t ver; uint32_t used; };
#define MAXI 5
static struct arr {
	int kind; void* c; size_t es; uint64_t size, salt, hbytes, max, requests;
	struct cell* cell; size_t mask, ncell;
} A[MAXI];
static int na;
static const char* has(const char* tok) { return strstr(mon_variant, tok); }

static struct cell* cell_of(struct arr* a, uint64_t pos, int create)
{
	size_t i;
	if (a->cell) for (i = (size_t)mix64(pos, 7) & a->mask; a->cell[i].used; i = (i + 1) & a->mask) if (a->cell[i].pos == pos) return &a->cell[i];
	if (!create) return 0;
	if (2 * (a->ncell + 1) > a->mask) { /* only for a new one: those who walk the cells may ask for one they found */
		struct cell* o = a->cell; size_t om = a->mask, k;
		a->mask = a->mask ? a->mask * 2 + 1 : 255;
		a->cell = (struct cell*)calloc(a->mask + 1, sizeof(struct cell)); REQUIRE(a->cell);
		if (o) for (k = 0; k <= om; ++k) if (o[k].used) {
			for (i = (size_t)mix64(o[k].pos, 7) & a->mask; a->cell[i].used; i = (i + 1) & a->mask) ;
			a->cell[i] = o[k];
		}
		free(o);
	}
	for (i = (size_t)mix64(pos, 7) & a->mask; a->cell[i].used; i = (i + 1) & a->mask) ;
	a->cell[i].used = 1; a->cell[i].pos = pos; a->cell[i].addr = 0; a->cell[i].ver = 0; ++a->ncell;
	return &a->cell[i];
}
/* of an element of megabytes only some parts are looked at */
#define BIGEL ((size_t)1 << 16)
#define SKIP(i, n) do { if ((n) > BIGEL) { if ((i) == 64) (i) = (n) / 2; else if ((i) == (n) / 2 + 64) (i) = (n) - 64; } } while (0)
static unsigned char content(struct arr* a, uint64_t pos, uint32_t ver, size_t off) { return ver ? (unsigned char)(1 + mix64(a->salt ^ pos, ver * 4096ULL + off / 8) % 255 + (off & 7)) : 0; }
/* a pointer written is sometimes null, also over another one */
static void* pval(struct arr* a, uint64_t pos, uint32_t ver) { uint64_t v = ver ? mix64(a->salt ^ pos, ver) : 0; return (void*)(uintptr_t)((v >> 20) % 8 ? v | 1 : 0); }

static uint64_t hb0, hr0, st0;
#define REQUESTS (H.mallocs + H.callocs + H.reallocs)
#define BEGIN(a) do { hb0 = H.live_bytes; hr0 = REQUESTS; st0 = mon_steps; mon_budget(400000000000ULL); } while (0)
#define END(a) do { st0 = mon_steps - st0; mon_op_end(); (a)->hbytes += H.live_bytes - hb0; (a)->requests += REQUESTS - hr0; mon_heap_forbid = mon_heap_nofree = 0; } while (0)
#define FORBID() (mon_heap_forbid = (mon_mask & O_HEAP) != 0)
#define NOFREE() (mon_heap_nofree = (mon_mask & O_HEAP) != 0)

/* an operation does constant work, but for the memory requested for new elements: nothing is ever done again on the elements existing */
static void cost_check(struct arr* a, const char* op)
{
	uint64_t bytes = H.live_bytes > hb0 ? H.live_bytes - hb0 : 0, reqs = REQUESTS - hr0, lim = 160 + 80 * reqs + bytes / 2; /* clearing it by hand, a pointer at a time, is as good as calloc() */
	if (!mon_have_steps) return;
	if (reqs == 0) mon_max("max_steps_without_request", st0);
	else if (st0 > bytes / 16) mon_max("max_steps_per_request", (st0 - bytes / 16) / reqs);
	mon_stat("cost_checks", 1);
	CHECK(O_COST, st0 <= lim, "array-not-constant", "%s on %s of %llu elements of %zu bytes executed %llu basic blocks for %llu heap requests and %llu new bytes", op, kname[a->kind], (unsigned long long)a->size, a->es, (unsigned long long)st0, (unsigned long long)reqs, (unsigned long long)bytes);
}
static unsigned char* ref_of(struct arr* a, uint64_t pos)
{
	unsigned char* p = 0;
	BEGIN(a); FORBID();
	switch (a->kind) {
	case AR: p = (unsigned char*)s_array_ref((tommy_array*)a->c, (tommy_size_t)pos); break;
	case AB: p = (unsigned char*)s_arrayblk_ref((tommy_arrayblk*)a->c, (tommy_size_t)pos); break;
	case AO: p = (unsigned char*)s_arrayof_ref((tommy_arrayof*)a->c, (tommy_size_t)pos); break;
	default: p = (unsigned char*)s_arrayblkof_ref((tommy_arrayblkof*)a->c, (tommy_size_t)pos);
	}
	END(a); cost_check(a, "ref");
	return p;
}
static unsigned lg2(uint64_t v) { unsigned r = 0; while (v > 1) { v = (v + 1) / 2; ++r; } return r; } /* rounded up */
/* memory and number of heap requests in proportion to the elements */
static void economy_check(struct arr* a)
{
	uint64_t n = a->size, bytes, reqs;
	if (a->kind == AR || a->kind == AO) {
		bytes = (n <= 64 ? 64 : 2 * n - 2) * a->es;
		reqs = n <= 64 ? 1 : 1 + lg2(n) - 6;
	} else {
		uint64_t blocks = (n + 4095) / 4096, slots = blocks <= 64 ? 64 : 2 * blocks - 2;
		bytes = blocks * 4096 * a->es + slots * sizeof(void*);
		reqs = blocks + (blocks <= 64 ? 1 : 1 + lg2(blocks) - 6);
	}
	CHECK(O_SIZE, a->hbytes <= bytes, "memory-out-of-proportion", "%s of %llu elements of %zu bytes holds %llu bytes of heap, at most %llu are due", kname[a->kind], (unsigned long long)n, a->es, (unsigned long long)a->hbytes, (unsigned long long)bytes);
	CHECK(O_SIZE, a->requests <= reqs, "too-many-heap-requests", "%s of %llu elements did %llu heap requests, at most %llu are due", kname[a->kind], (unsigned long long)n, (unsigned long long)a->requests, (unsigned long long)reqs);
	mon_stat("economy_checks", 1);
	if (bytes) mon_max("max_permille_of_bound", a->hbytes * 1000 / bytes);
}
static void size_check(struct arr* a)
{
	uint64_t s = 0, u = 0;
	BEGIN(a); FORBID();
	switch (a->kind) {
	case AR: s = s_array_size((tommy_array*)a->c); u = s_array_memory_usage((tommy_array*)a->c); break;
	case AB: s = s_arrayblk_size((tommy_arrayblk*)a->c); u = s_arrayblk_memory_usage((tommy_arrayblk*)a->c); break;
	case AO: s = s_arrayof_size((tommy_arrayof*)a->c); u = s_arrayof_memory_usage((tommy_arrayof*)a->c); break;
	default: s = s_arrayblkof_size((tommy_arrayblkof*)a->c); u = s_arrayblkof_memory_usage((tommy_arrayblkof*)a->c);
	}
	END(a); cost_check(a, "size and memory usage");
	CHECK(O_MEM, s == a->size, "wrong-size", "size of %s is %llu instead of %llu", kname[a->kind], (unsigned long long)s, (unsigned long long)a->size);
	CHECK(O_USE, u == a->hbytes, "wrong-memory-usage", "%s of %llu elements of %zu bytes reports %llu bytes, it holds %llu", kname[a->kind], (unsigned long long)a->size, a->es, (unsigned long long)u, (unsigned long long)a->hbytes);
	mon_stat("usage_checks", 1);
	mon_res(u + a->hbytes);
	if (a->c) economy_check(a);
}
/* reads an element, checks content and address, and optionally writes it */
static void visit(int x, uint64_t pos, int write)
{
	struct arr* a = &A[x]; struct cell* c = cell_of(a, pos, 1); unsigned char* p; size_t i; uintptr_t base; size_t bsz;
	mon_op(write ? "set" : "get", (uint64_t)x, pos, c->ver);
	p = ref_of(a, pos);
	if (c->addr) { CHECK(O_ADDR, p == c->addr, "element-moved", "element %llu of %s moved from %p to %p", (unsigned long long)pos, kname[a->kind], (void*)c->addr, (void*)p); }
	else {
		if (H.live < 200 || chance(3)) {
			CHECK(O_ADDR, mon_heap_owner(p, a->es, &base, &bsz), "element-outside-memory", "element %llu of %s (%zu bytes at %p) is not inside the memory of the array", (unsigned long long)pos, kname[a->kind], a->es, (void*)p);
			mon_stat("elements_located", 1);
		}
		c->addr = p;
	}
	if (a->kind <= AB) {
		void* v; void* w; memcpy(&v, p, sizeof(v));
		BEGIN(a); FORBID();
		w = a->kind == AR ? s_array_get((tommy_array*)a->c, (tommy_size_t)pos) : s_arrayblk_get((tommy_arrayblk*)a->c, (tommy_size_t)pos);
		END(a); cost_check(a, "get");
		CHECK(O_MEM, v == w, "get-differs-from-ref", "get and ref of element %llu of %s disagree", (unsigned long long)pos, kname[a->kind]);
		CHECK(O_MEM, v == pval(a, pos, c->ver), c->ver ? "wrong-element" : "not-zero", "element %llu of %s of %llu is %p instead of %p", (unsigned long long)pos, kname[a->kind], (unsigned long long)a->size, v, pval(a, pos, c->ver));
		if (write) {
			++c->ver;
			if (chance(60)) {
				BEGIN(a); FORBID();
				if (a->kind == AR) s_array_set((tommy_array*)a->c, (tommy_size_t)pos, pval(a, pos, c->ver)); else s_arrayblk_set((tommy_arrayblk*)a->c, (tommy_size_t)pos, pval(a, pos, c->ver));
				END(a); cost_check(a, "set");
			} else { v = pval(a, pos, c->ver); memcpy(p, &v, sizeof(v)); }
		}
	} else {
		for (i = 0; i < a->es; ++i) {
			SKIP(i, a->es);
			if (p[i] != content(a, pos, c->ver, i)) {
				mon_report(O_MEM, c->ver ? "wrong-element" : "not-zero", "byte %zu of element %llu (%zu bytes) of %s of %llu is 0x%02x instead of 0x%02x", i, (unsigned long long)pos, a->es, kname[a->kind], (unsigned long long)a->size, p[i], content(a, pos, c->ver, i));
				break;
			}
		}
		if (write) { ++c->ver; for (i = 0; i < a->es; ++i) { SKIP(i, a->es); p[i] = content(a, pos, c->ver, i); } }
	}
	mon_stat(write ? "elements_written" : "elements_read", 1);
	if (!c->ver) mon_stat("zero_elements_read", 1);
	mon_res(c->ver);
}
static void do_grow(int x, uint64_t n)
{
	struct arr* a = &A[x];
	uint64_t he = mon_heap_events();
	mon_op("grow", (uint64_t)x, n, 0);
	BEGIN(a); NOFREE();
	switch (a->kind) {
	case AR: s_array_grow((tommy_array*)a->c, (tommy_size_t)n); break;
	case AB: s_arrayblk_grow((tommy_arrayblk*)a->c, (tommy_size_t)n); break;
	case AO: s_arrayof_grow((tommy_arrayof*)a->c, (tommy_size_t)n); break;
	default: s_arrayblkof_grow((tommy_arrayblkof*)a->c, (tommy_size_t)n);
	}
	END(a); cost_check(a, "grow");
	if (n <= a->size) CHECK(O_HEAP, mon_heap_events() == he, "heap-use-growing-nothing", "grow to a size not larger used the heap");
	if (n > a->size) a->size = n;
	if (a->size > a->max) a->max = a->size;
	size_check(a);
	mon_res(a->size);
}
static void do_insert(int x)
{
	struct arr* a = &A[x]; struct cell* c; uint64_t pos = a->size;
	if (a->kind > AB) { do_grow(x, a->size + 1); visit(x, pos, 1); return; }
	mon_op("insert", (uint64_t)x, pos, 0);
	c = cell_of(a, pos, 1);
	c->ver = 1;
	BEGIN(a); NOFREE();
	if (a->kind == AR) s_array_insert((tommy_array*)a->c, pval(a, pos, 1)); else s_arrayblk_insert((tommy_arrayblk*)a->c, pval(a, pos, 1));
	END(a); cost_check(a, "insert");
	++a->size;
	if (a->size > a->max) a->max = a->size;
	mon_res(pos);
	if (chance(20)) { size_check(a); visit(x, pos, 0); }
}
static int cmp_addr(const void* x, const void* y) { uintptr_t a = *(const uintptr_t*)x, b = *(const uintptr_t*)y; return a < b ? -1 : a > b; }
static void audit(int full)
{
	int x; size_t i, n = 0, m = 0; struct ext { uintptr_t a, e; } *v;
	for (x = 0; x < na; ++x) { if (!A[x].c) continue; size_check(&A[x]); n += A[x].ncell; }
	if (!full) return;
	v = (struct ext*)malloc((n + 1) * sizeof(*v)); REQUIRE(v);
	for (x = 0; x < na; ++x) {
		struct arr* a = &A[x];
		if (!a->c || !a->cell) continue;
		for (i = 0; i <= a->mask; ++i) if (a->cell[i].used) {
			visit(x, a->cell[i].pos, 0);
			v[m].a = (uintptr_t)a->cell[i].addr; v[m].e = v[m].a + a->es; ++m;
		}
	}
	qsort(v, m, sizeof(*v), cmp_addr);
	for (i = 1; i < m; ++i) CHECK(O_ADDR, v[i - 1].e <= v[i].a, "elements-overlap", "two elements overlap: [%p,%p) and [%p,%p)", (void*)v[i - 1].a, (void*)v[i - 1].e, (void*)v[i].a, (void*)v[i].e);
	mon_stat("full_audits", 1); mon_stat("extents_compared", m);
	free(v);
	if ((mon_mask & O_HEAP) && H.live < 3000) mon_heap_audit();
}
static void arr_init(int x, int kind, size_t es)
{
	struct arr* a = &A[x]; size_t n;
	memset(a, 0, sizeof(*a));
	a->kind = kind; a->es = kind <= AB ? sizeof(void*) : es; a->salt = rnd();
	n = kind == AR ? sizeof(tommy_array) : kind == AB ? sizeof(tommy_arrayblk) : kind == AO ? sizeof(tommy_arrayof) : sizeof(tommy_arrayblkof);
	a->c = malloc(n); REQUIRE(a->c);
	mon_garbage(a->c, n);
	mon_op("init", (uint64_t)x, (uint64_t)kind, a->es);
	BEGIN(a);
	switch (kind) {
	case AR: s_array_init((tommy_array*)a->c); break;
	case AB: s_arrayblk_init((tommy_arrayblk*)a->c); break;
	case AO: s_arrayof_init((tommy_arrayof*)a->c, (tommy_size_t)es); break;
	default: s_arrayblkof_init((tommy_arrayblkof*)a->c, (tommy_size_t)es);
	}
	END(a);
	mon_res(0);
	size_check(a);
}
static void arr_done(int x)
{
	struct arr* a = &A[x];
	mon_op("done", (uint64_t)x, a->size, 0);
	BEGIN(a);
	switch (a->kind) {
	case AR: s_array_done((tommy_array*)a->c); break;
	case AB: s_arrayblk_done((tommy_arrayblk*)a->c); break;
	case AO: s_arrayof_done((tommy_arrayof*)a->c); break;
	default: s_arrayblkof_done((tommy_arrayblkof*)a->c);
	}
	END(a);
	if (mon_have_steps) CHECK(O_COST, st0 <= 64 + 24 * a->requests, "done-not-linear", "done of %s of %llu elements executed %llu basic blocks for %llu requests ever done", kname[a->kind], (unsigned long long)a->size, (unsigned long long)st0, (unsigned long long)a->requests);
	CHECK(O_HEAP, a->hbytes == 0, "heap-leak", "%s of %llu elements left %llu bytes after done", kname[a->kind], (unsigned long long)a->size, (unsigned long long)a->hbytes);
	mon_res(0);
	free(a->c); a->c = 0; free(a->cell); a->cell = 0;
}
static uint64_t edge(uint64_t max)
{
	uint64_t v, m = max; unsigned b = 0;
	while (m) { ++b; m >>= 1; }
	switch (rndn(5)) {
	case 4: v = mon_size(max); break;
	case 0: v = (uint64_t)1 << rndn(b); v += rndn(5); v = v > 2 ? v - 2 : v; break;
	case 1: v = (rndn(max / 4096 + 1) * 4096); v += rndn(5); v = v > 2 ? v - 2 : v; break;
	case 2: v = rndlog(max); break;
	default: v = rndn(max + 1);
	}
	return v > max ? max : v;
}
static int vm_ok(uint64_t n)
{
	void* p;
	if (sizeof(void*) < 8) return 0;
	p = mmap(0, (size_t)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) return 0;
	munmap(p, (size_t)n);
	return 1;
}
/* does growing leave untouched the memory it clears? (where not, the memory of the machine is the limit) */
static int lazy(int kind)
{
	static int known[NKIND]; /* 1 + answer */
	uint64_t r; tommy_arrayof of; tommy_arrayblkof bo; tommy_array ar;
	if (known[kind]) return known[kind] - 1;
	r = mon_rss();
	switch (kind) {
	case AR: s_array_init(&ar); s_array_grow(&ar, (tommy_size_t)1 << 27); break;
	case AO: s_arrayof_init(&of, 4); s_arrayof_grow(&of, (tommy_size_t)1 << 28); break;
	default: s_arrayblkof_init(&bo, 1 << 16); s_arrayblkof_grow(&bo, 1);
	}
	known[kind] = 1 + (mon_rss() - r < (uint64_t)(kind == BO ? 100 : 500) << 20); /* the smaller segments are always touched */
	switch (kind) {
	case AR: s_array_done(&ar); break;
	case AO: s_arrayof_done(&of); break;
	default: s_arrayblkof_done(&bo);
	}
	mon_max(known[kind] == 2 ? "huge_kinds_lazy" : "huge_kinds_not_lazy", 1);
	return known[kind] - 1;
}
static int run_case(long index)
{
	int x, i, ops, hugev = has("huge") != 0, blocks = !hugev && index % 64 == 31; uint64_t cap[MAXI], total = 0; char desc[300]; int dl = 0;
	mon_heap_fill = 1 + (unsigned)rndn(3);
	if (hugev && vm_ok(200ULL << 30)) { lazy(AR); lazy(AO); lazy(BO); }
	na = hugev || blocks ? 2 : 1 + (int)rndn(MAXI);
	memset(A, 0, sizeof(A));
	for (x = 0; x < na; ++x) {
		int bigel, kind = (int)((index + (long)rndn(x ? 4 : 1)) % NKIND);
		size_t es;
		static const size_t ess[] = { 1, 2, 3, 4, 5, 7, 8, 12, 13, 16, 24, 31, 64, 100, 255, 257, 1000, 4097 };
		es = chance(60) ? ess[rndn(18)] : chance(20) ? 1 + (size_t)mon_size(5000) : 1 + (size_t)rndlog(600);
		bigel = 0;
		if (hugev && vm_ok(200ULL << 30) && (x ? chance(30) : index % 3 == 2)) { bigel = 1; kind = chance(70) ? BO : AO; es = ((size_t)1 << (16 + rndn(7))) + (size_t)(chance(40) ? rndn(9) : 0); if (!lazy(kind)) es = 1 + es % 5000; }
		else if (hugev) { kind = index & 1 ? AO : AR; es = 1 + (size_t)rndn(9); }
		if (blocks && !x) { kind = (index / 64) % 2 ? AB : BO; es = 1 + (size_t)rndn(3); }
		arr_init(x, kind, es);
		cap[x] = (uint64_t)(60 << 20) / (uint64_t)na / A[x].es / (kind == AB || kind == BO ? 2 : 4);
		if (cap[x] > 400000) cap[x] = 400000;
		if (index % 16 != 15 && cap[x] > 40000) cap[x] = 40000;
		if (blocks) cap[x] = x ? 20000 : 4096 * 1500; /* thousands of blocks */
		if (hugev) cap[x] = vm_ok(200ULL << 30) && lazy(kind) ? (uint64_t)5 << 31 : ((uint64_t)1 << 25) / (A[x].es > 16 ? A[x].es / 8 : 1);
		if (bigel && lazy(kind)) cap[x] = (((uint64_t)1 << 36) / es < 4096 * 40 ? ((uint64_t)1 << 36) / es : 4096 * 40);
		else if (hugev && A[x].es > 4 && cap[x] > ((uint64_t)1 << 33)) cap[x] = (uint64_t)1 << 33;
		dl += snprintf(desc + dl, sizeof(desc) - (size_t)dl, "%s%s", x ? ", " : "", kname[kind]);
		if (kind > AB) dl += snprintf(desc + dl, sizeof(desc) - (size_t)dl, "(%zu)", A[x].es);
	}
	ops = 20 + (int)rndn(80);
	for (i = 0; i < ops; ++i) {
		struct arr* a; uint64_t n, k;
		x = (int)rndn((uint64_t)na); a = &A[x];
		switch (rndn(8)) {
		case 0: n = edge(cap[x]); if (!hugev && chance(60) && a->size < cap[x] / 2) n = a->size + rndlog(cap[x] / 4); do_grow(x, n); break;
		case 1: do_grow(x, a->size ? a->size - rndn(a->size < 3 ? a->size + 1 : 3) : 0); break;
		case 2: n = 1 + rndlog(hugev ? 100 : 5000); while (n-- && a->size < cap[x]) do_insert(x); break;
		case 3: /* around every boundary below the size */
			if (a->size) for (n = 1; n && n <= a->size * 2; n *= 2) for (k = 0; k < 5; ++k) { uint64_t p = n + k - 2; if (p < a->size) visit(x, p, chance(70)); }
			break;
		case 4: for (k = 0; a->size && k < 200; ++k) visit(x, edge(a->size - 1), chance(60)); break;
		case 5: /* a dense range */
			if (a->size) { n = edge(a->size - 1); for (k = 0; k < 500 && n + k < a->size; ++k) visit(x, n + k, 1); }
			break;
		case 6: if (chance(40)) audit(0); else if (!hugev || chance(30)) audit(1); break;
		default: if (chance(8)) { int kind = a->kind; size_t es = a->es; audit(1); total += a->max; arr_done(x); arr_init(x, kind, es); } else if (a->size) visit(x, a->size - 1, 1);
		}
	}
	if (blocks) { do_grow(0, cap[0] - rndn(5000)); for (i = 0; i < 20; ++i) visit(0, edge(A[0].size - 1), 1); }
	audit(1);
	for (x = 0; x < na; ++x) { total += A[x].max; mon_max(hugev ? "max_size" : "max_size", A[x].max); arr_done(x); if (x + 1 < na && chance(40)) audit(1); }
	if (mon_mask & O_HEAP) mon_heap_leakcheck("done of every array");
	mon_sample("%s; %d phases, total size %llu", desc, ops, (unsigned long long)total);
	mon_heap_reset();
	return total > 64;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_array", run_case); }
