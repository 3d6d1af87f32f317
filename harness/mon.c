#include "mon.h"
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <errno.h>
#ifdef MON_MSAN
#include <sanitizer/msan_interface.h>
#endif

const char* mon_prop = "";
unsigned mon_mask = ~0u;
uint64_t mon_seed = 1;
long mon_shard = 0, mon_nshards = 1, mon_cases = 1, mon_only = -1;
double mon_scale = 1;
int mon_thorough = 0;
const char* mon_variant = "";
mon_rng R;
jmp_buf mon_abandon_jmp;
static long cur_case = -1;
static const char* mon_name = "";
static int in_report;

/* ------------------------------------------------------------------ trace */
#define RING 48
static struct { const char* op; uint64_t a, b, c, r; int done; } ring[RING];
static uint64_t ring_n;
uint64_t mon_sig, mon_digest, mon_events;

void mon_op(const char* op, uint64_t a, uint64_t b, uint64_t c)
{
	unsigned i = ring_n++ % RING;
	ring[i].op = op; ring[i].a = a; ring[i].b = b; ring[i].c = c; ring[i].done = 0;
	++mon_events;
}
void mon_res(uint64_t r)
{
	unsigned i = (ring_n - 1) % RING;
	if (!ring_n) { mon_sig = mix64(mon_sig, r); return; }
	ring[i].r = r; ring[i].done = 1;
	mon_sig = (mon_sig ^ r ^ ((uint64_t)(unsigned char)ring[i].op[0] << 56)) * 0x100000001b3ULL + 0x1234567;
	mon_sig ^= mon_sig >> 29;
}
static void dump_context(void)
{
	uint64_t i = ring_n > RING ? ring_n - RING : 0;
	printf("CONTEXT harness=%s prop=%s variant=%s seed=%llu case=%ld shard=%ld nshards=%ld cases=%ld operations=%llu\n", mon_name, mon_prop, mon_variant,
		(unsigned long long)mon_seed, cur_case, mon_shard, mon_nshards, mon_cases, (unsigned long long)ring_n);
	for (; i < ring_n; ++i) {
		unsigned k = i % RING;
		printf("  op %llu %s(%llu, 0x%llx, %llu)", (unsigned long long)i, ring[k].op, (unsigned long long)ring[k].a,
			(unsigned long long)ring[k].b, (unsigned long long)ring[k].c);
		if (ring[k].done) printf(" -> %lld\n", (long long)ring[k].r); else printf(" -> ...\n");
	}
	fflush(stdout);
}
void mon_report(unsigned group, const char* key, const char* fmt, ...)
{
	va_list ap;
	if (!in_report && !(group & (mon_mask | O_ALWAYS))) {
		/* not what is being decided: go on, unless the model is no longer in step with the library */
		mon_stat("divergences_of_other_properties", 1);
		/* it is part of the behaviour of this configuration */
		while (*key) mon_sig = (mon_sig ^ (unsigned char)*key++) * 0x100000001b3ULL;
		if (!(group & (O_MEM | O_ORD | O_ADDR))) return;
		mon_stat("abandoned_cases", 1);
		longjmp(mon_abandon_jmp, 1);
	}
	if (in_report) _Exit(42);
	in_report = 1;
	printf("\nORACLE-FAIL key=%s msg=", key);
	va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
	printf("\n");
	dump_context();
	_Exit(42);
}
static void on_signal(int sig)
{
	const char* n = sig == SIGSEGV ? "sigsegv" : sig == SIGBUS ? "sigbus" : sig == SIGFPE ? "sigfpe" : sig == SIGILL ? "sigill" : "sigabrt";
	if (in_report) _Exit(42);
	in_report = 1;
	printf("\nORACLE-FAIL key=crash-%s msg=the library crashed\n", n);
	dump_context();
	_Exit(42);
}
/* an operation which takes more than a minute of cpu: what is generated here takes seconds at most */
static uint64_t tick_at; static int ticks;
static void on_tick(int sig)
{
	uint64_t at = mon_events * 1000003u + (uint64_t)cur_case;
	(void)sig;
	if (at != tick_at) { tick_at = at; ticks = 0; return; }
	if (++ticks < (MON_IS_TSAN ? 150 : 45) || in_report) return;
	in_report = 1;
	printf("\nORACLE-FAIL key=no-progress msg=one operation did not finish in more than a minute of cpu time\n");
	dump_context();
	_Exit(42);
}
static void on_death(void) { if (!in_report) { in_report = 1; dump_context(); } }
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

/* ------------------------------------------------------------------ stats */
#define NSTAT 256
static struct { char name[64]; uint64_t v; int max; } st[NSTAT];
static int nst;
static uint64_t* slot(const char* name, int max)
{
	int i;
	for (i = 0; i < nst; ++i)
		if (st[i].name == name || strcmp(st[i].name, name) == 0) return &st[i].v;
	if (nst == NSTAT) return &st[NSTAT - 1].v;
	snprintf(st[nst].name, sizeof(st[nst].name), "%s", name);
	st[nst].max = max;
	return &st[nst++].v;
}
void mon_stat(const char* name, uint64_t add) { *slot(name, 0) += add; }
void mon_max(const char* name, uint64_t value) { uint64_t* p = slot(name, 1); if (*p < value) *p = value; }
static int nsample;
void mon_sample(const char* fmt, ...)
{
	va_list ap;
	if (nsample++ >= 3) return;
	printf("SAMPLE case=%ld ", cur_case);
	va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
	printf("\n");
}

/* ------------------------------------------------------------------ steps */
uint64_t mon_steps, mon_step_limit = ~(uint64_t)0;
int mon_have_steps;
uintptr_t mon_sp_base, mon_sp_min; /* stack used by the operation in progress */
uint64_t mon_sp_most;
static unsigned char pcset[1 << 20];
static uint64_t npc;
void __sanitizer_cov_trace_pc(void);
__attribute__((no_sanitize("address", "undefined", "thread"))) void __sanitizer_cov_trace_pc(void)
{
	uintptr_t pc = (uintptr_t)__builtin_return_address(0), sp = (uintptr_t)__builtin_frame_address(0);
	unsigned h = (unsigned)((pc * 0x9e3779b1u) >> 3) & ((1 << 20) - 1);
	if (!pcset[h]) { pcset[h] = 1; ++npc; }
	mon_have_steps = 1;
	if (sp < mon_sp_min) mon_sp_min = sp;
	if (++mon_steps > mon_step_limit) {
		mon_step_limit = ~(uint64_t)0;
		mon_report(O_ALWAYS, "endless-operation", "one operation executed more basic blocks than its whole budget: it does not terminate");
	}
}
uint64_t mon_pcs(void) { return npc; }
/* work done by the C library on behalf of the operation: in the builds that count, the object of the library refers to these */
#define WORK(n) (mon_steps += (n) / 16)
void* mon_cnt_memset(void* a, int b, size_t n); void* mon_cnt_memcpy(void* a, const void* b, size_t n); void* mon_cnt_memmove(void* a, const void* b, size_t n);
int mon_cnt_memcmp(const void* a, const void* b, size_t n); void* mon_cnt_memchr(const void* a, int b, size_t n); size_t mon_cnt_strlen(const char* a); void mon_cnt_bzero(void* a, size_t n);
void* mon_cnt_memset(void* a, int b, size_t n) { WORK(n); return memset(a, b, n); }
void* mon_cnt_memcpy(void* a, const void* b, size_t n) { WORK(n); return memcpy(a, b, n); }
void* mon_cnt_memmove(void* a, const void* b, size_t n) { WORK(n); return memmove(a, b, n); }
int mon_cnt_memcmp(const void* a, const void* b, size_t n) { WORK(n); return memcmp(a, b, n); }
void* mon_cnt_memchr(const void* a, int b, size_t n) { WORK(n); return memchr(a, b, n); }
size_t mon_cnt_strlen(const char* a) { size_t n = strlen(a); WORK(n); return n; }
void mon_cnt_bzero(void* a, size_t n) { WORK(n); memset(a, 0, n); }

/* ------------------------------------------------------------------ constants */
uint64_t mon_dict[1024];
int mon_ndict;
uint64_t mon_word(void)
{
	uint64_t v = mon_ndict && !chance(10) ? mon_dict[rndn((uint64_t)mon_ndict)] : rnd() >> rndn(64);
	switch (rndn(12)) {
	case 0: ++v; break;
	case 1: --v; break;
	case 2: v <<= rndn(64); break;
	case 3: v <<= 32; break;
	case 4: v = (v & 0xffffffff) | v << 32; break;
	case 5: v = ~v; break;
	case 6: v = (uint64_t)1 << (v & 63); break;
	case 7: v = 0 - v; break;
	case 8: v = (v & 0xffffffff) | rnd() << 32; break;
	case 9: v = (v & 0xff) * 0x0101010101010101ULL; break;
	}
	return v;
}
static void dict_init(void)
{
	const char* s = getenv("MON_DICT"); char* e;
	while (s && *s && mon_ndict < 1024) {
		mon_dict[mon_ndict] = strtoull(s, &e, 10);
		if (e == s) break;
		++mon_ndict;
		s = *e == ',' ? e + 1 : e;
	}
}

/* ------------------------------------------------------------------ heap */
struct mon_heap_info H;
int mon_heap_forbid, mon_heap_nofree, mon_heap_noalloc;
unsigned mon_heap_group = O_HEAP;
unsigned mon_heap_fill, mon_heap_skew;
void* (*mon_arena_get)(size_t n); /* where the blocks of the library come from, if not from the heap of C */
void (*mon_arena_put)(void* p, size_t n);
#if !defined(MON_ASAN) && !defined(MON_MSAN) && !defined(MON_TSAN)
#define CANARY 1
#define FRONT 32
#define BACK 32
#else
#define CANARY 0
#define FRONT 0
#define BACK 0
#endif
#define HUGE_SIZE ((size_t)192 << 20)
struct blk { void* p; size_t n; void* base; size_t map; };
static uint64_t small_bytes;
static struct blk* tab;
static size_t tab_max, tab_used; /* used includes tombstones */
#define TOMB ((void*)1)
static size_t hidx(const void* p) { uint64_t x = (uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 29; return (size_t)x; }
static void tab_add(struct blk b)
{
	size_t i;
	if (2 * (tab_used + 1) > tab_max) {
		struct blk* o = tab; size_t om = tab_max, k;
		tab_max = 1024;
		while (tab_max < 8 * (H.live + 1)) tab_max *= 2;
		tab = (struct blk*)calloc(tab_max, sizeof(*tab));
		REQUIRE(tab);
		tab_used = 0;
		for (k = 0; k < om; ++k)
			if (o[k].p && o[k].p != TOMB) {
				for (i = hidx(o[k].p) & (tab_max - 1); tab[i].p; i = (i + 1) & (tab_max - 1)) ;
				tab[i] = o[k]; ++tab_used;
			}
		free(o);
	}
	for (i = hidx(b.p) & (tab_max - 1); tab[i].p && tab[i].p != TOMB; i = (i + 1) & (tab_max - 1)) ;
	if (!tab[i].p) ++tab_used;
	tab[i] = b;
}
static struct blk* tab_find(const void* p)
{
	size_t i;
	if (!tab_max) return 0;
	for (i = hidx(p) & (tab_max - 1); tab[i].p; i = (i + 1) & (tab_max - 1))
		if (tab[i].p == p) return &tab[i];
	return 0;
}
void mon_garbage(void* p, size_t n)
{
#ifdef MON_MSAN
	__msan_allocated_memory(p, n);
#else
	/* deterministic: it depends on the case, not on addresses */
	unsigned char* c = (unsigned char*)p; size_t i;
	uint64_t x = 0x5851f42d4c957f2dULL * (mon_heap_fill + 1);
	if (mon_heap_fill == 0) { memset(p, 0, n); return; }
	if (mon_heap_fill == 1) { memset(p, 0xff, n); return; }
	if (mon_heap_fill == 2) { memset(p, 0xa5, n); return; }
	for (i = 0; i + 8 <= n; i += 8) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; memcpy(c + i, &x, 8); }
	for (; i < n; ++i) c[i] = (unsigned char)(x >> (8 * (i & 7)));
#endif
}
static void canary_set(struct blk* b)
{
	unsigned char* c = (unsigned char*)b->p; size_t i;
	if (!CANARY || b->map) return;
	for (i = 0; i < FRONT; ++i) c[-(ptrdiff_t)i - 1] = (unsigned char)(0xC3 + i);
	for (i = 0; i < BACK; ++i) c[b->n + i] = (unsigned char)(0x3C + i);
}
static void canary_check(struct blk* b)
{
	unsigned char* c = (unsigned char*)b->p; size_t i;
	if (!CANARY || b->map) return;
	for (i = 0; i < FRONT; ++i)
		CHECK(mon_heap_group | O_ALWAYS, c[-(ptrdiff_t)i - 1] == (unsigned char)(0xC3 + i), "heap-underrun", "bytes before a heap block of %zu bytes were overwritten", b->n);
	for (i = 0; i < BACK; ++i)
		CHECK(mon_heap_group | O_ALWAYS, c[b->n + i] == (unsigned char)(0x3C + i), "heap-overrun", "bytes after a heap block of %zu bytes were overwritten", b->n);
}
static void* get(size_t n, int zero)
{
	struct blk b;
	size_t skew = mon_heap_skew;
	if (n < HUGE_SIZE && small_bytes + n > ((uint64_t)3 << 30))
		mon_report(mon_heap_group | O_ALWAYS, "heap-runaway", "more than 3 GiB are held in %llu blocks: far beyond what the contents need", (unsigned long long)H.live);
	if (mon_heap_forbid)
		mon_report(mon_heap_group, "heap-in-non-allocating-operation", "an operation documented not to allocate requested %zu bytes", n);
	if (mon_heap_noalloc)
		mon_report(mon_heap_group, "heap-request-in-removal", "a removal requested %zu bytes", n);
	b.n = n;
	if (n >= HUGE_SIZE) {
		b.map = (n + 2 * 4096 + 4095) & ~(size_t)4095;
		b.base = mmap(0, b.map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (b.base == MAP_FAILED) { printf("HARNESS-ERROR mmap %zu\n", n); fflush(stdout); _Exit(3); }
		mprotect(b.base, 4096, PROT_NONE);
		b.p = (char*)b.base + 4096;
	} else {
		b.map = 0;
		if (MON_IS_ASAN || MON_IS_MSAN || MON_IS_TSAN) skew = 0;
		b.base = mon_arena_get ? mon_arena_get(n + (skew = 0) + FRONT + BACK) : malloc(n + skew + FRONT + BACK);
		REQUIRE(b.base);
		b.p = (char*)b.base + skew + FRONT;
		if (zero) memset(b.p, 0, n);
		else mon_garbage(b.p, n);
	}
	canary_set(&b);
	++H.live; H.live_bytes += n; if (!b.map) small_bytes += n;
	if (H.live > H.peak_live) H.peak_live = H.live;
	if (n > H.max_block) H.max_block = n;
	tab_add(b);
	return b.p;
}
void* mon_malloc(size_t n) { ++H.mallocs; return get(n, 0); }
void* mon_calloc(size_t n, size_t m)
{
	size_t t;
	++H.callocs;
	CHECK(mon_heap_group | O_ALWAYS, !__builtin_mul_overflow(n, m, &t), "calloc-overflow", "calloc(%zu, %zu) overflows", n, m);
	mon_steps += n * m / 16; /* zeroing is work too */
	return get(n * m, 1);
}
static void put(void* p, const char* what)
{
	struct blk* b = tab_find(p);
	struct blk s;
	if (!b) { mon_report(mon_heap_group | O_ALWAYS, "bad-free", "%s of %p which is not a live block returned by the allocation functions (released twice or never obtained)", what, p); return; }
	canary_check(b);
	s = *b;
	b->p = TOMB;
	--H.live; H.live_bytes -= s.n; if (!s.map) small_bytes -= s.n;
	if (s.map) munmap(s.base, s.map);
	else {
#if CANARY
		memset(s.p, 0xdb, s.n < 4096 ? s.n : 4096);
#endif
		if (mon_arena_put) mon_arena_put(s.base, s.n + FRONT + BACK); else free(s.base);
	}
}
void mon_free(void* p)
{
	++H.frees;
	if (mon_heap_forbid)
		mon_report(mon_heap_group, "heap-in-non-allocating-operation", "an operation documented not to use the heap released memory");
	if (mon_heap_nofree)
		mon_report(mon_heap_group, "segment-released-in-use", "an operation that must keep its memory released a block");
	if (!p) return;
	put(p, "free");
}
void* mon_realloc(void* p, size_t n)
{
	struct blk* b;
	void* q;
	++H.reallocs;
	if (!p) return get(n, 0);
	if (mon_heap_nofree)
		mon_report(mon_heap_group, "segment-reallocated", "memory documented never to be reallocated was passed to realloc");
	b = tab_find(p);
	if (!b) mon_report(mon_heap_group | O_ALWAYS, "bad-free", "realloc of %p which is not a live block", p);
	q = get(n, 0);
	b = tab_find(p);
	memcpy(q, p, b->n < n ? b->n : n);
	put(p, "realloc");
	return q;
}
void mon_bypass(const char* what)
{
	mon_report(mon_heap_group, "heap-bypass", "the library called %s directly instead of the configured function", what);
}
uint64_t mon_rss(void) { unsigned long a = 0, b = 0; FILE* f = fopen("/proc/self/statm", "r"); if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return (uint64_t)b * 4096; }
void* mon_memset(void* p, int c, size_t n)
{
	struct blk* b;
	if (n < HUGE_SIZE || c || !(b = tab_find(p)) || !b->map || n > b->n) return memset(p, c, n);
	{
		uintptr_t a = ((uintptr_t)p + 4095) & ~(uintptr_t)4095, e = ((uintptr_t)p + n) & ~(uintptr_t)4095;
		if (madvise((void*)a, e - a, MADV_DONTNEED)) return memset(p, c, n);
		memset(p, 0, a - (uintptr_t)p);
		memset((void*)e, 0, (uintptr_t)p + n - e);
	}
	return p;
}
void mon_heap_audit(void)
{
	size_t i;
	for (i = 0; i < tab_max; ++i)
		if (tab[i].p && tab[i].p != TOMB) canary_check(&tab[i]);
}
int mon_heap_owner(const void* p, size_t n, uintptr_t* base, size_t* size)
{
	size_t i; uintptr_t a = (uintptr_t)p;
	for (i = 0; i < tab_max; ++i)
		if (tab[i].p && tab[i].p != TOMB) {
			uintptr_t s = (uintptr_t)tab[i].p;
			if (a >= s && a + n <= s + tab[i].n) { *base = s; *size = tab[i].n; return 1; }
		}
	return 0;
}
void mon_heap_leakcheck(const char* what)
{
	if (H.live)
		mon_report(mon_heap_group, "heap-leak", "%llu blocks (%llu bytes) not released after %s", (unsigned long long)H.live, (unsigned long long)H.live_bytes, what);
}
void mon_heap_reset(void)
{
	free(tab); tab = 0; tab_max = tab_used = 0;
	H.live = H.live_bytes = H.peak_live = small_bytes = 0;
	mon_heap_forbid = mon_heap_nofree = mon_heap_noalloc = 0;
}

/* ------------------------------------------------------------------ main */
static const char* argval(int argc, char** argv, const char* name, const char* def)
{
	int i;
	for (i = 1; i + 1 < argc; ++i)
		if (strcmp(argv[i], name) == 0) return argv[i + 1];
	return def;
}
void mon_layout_init(struct mon_layout* l, long index, uint64_t cap)
{
	/* not taken from the generator: the same case has another layout in the configurations that ask for it */
	unsigned k = (unsigned)(mix64((uint64_t)index, mon_seed) % 6 + (strstr(mon_variant, "fill0") ? 2 : strstr(mon_variant, "fill1") ? 4 : 0)) % 6;
	l->bare = k & 1; l->order = (int)(k >> 1); l->cap = cap;
	if (l->order == 2 && cap > 400000) l->order = 1;
	for (l->mask = 1; l->mask + 1 < cap; l->mask = l->mask * 2 + 1) {}
	mon_stat(l->bare ? "cases_plain_arrays_of_nodes" : "cases_guarded_nodes", 1);
}
int mon_main(int argc, char** argv, const char* name, mon_case_func* func)
{
	static char altstack[1 << 16];
	stack_t ss;
	struct sigaction sa;
	volatile long c, k;
	int reverse;
	volatile long ran = 0, nontrivial = 0;
	int i;
	mon_name = name;
	setvbuf(stdout, 0, _IOFBF, 1 << 16);
	mon_prop = argval(argc, argv, "--prop", "");
	mon_variant = argval(argc, argv, "--variant", "");
	reverse = strstr(mon_variant, "reverse") != 0;
	mon_mask = (unsigned)strtoul(argval(argc, argv, "--mask", "0xffffffff"), 0, 0);
	mon_seed = strtoull(argval(argc, argv, "--seed", "1"), 0, 0);
	mon_shard = strtol(argval(argc, argv, "--shard", "0"), 0, 0);
	mon_nshards = strtol(argval(argc, argv, "--nshards", "1"), 0, 0);
	mon_cases = strtol(argval(argc, argv, "--cases", "1"), 0, 0);
	mon_only = strtol(argval(argc, argv, "--case", "-1"), 0, 0);
	mon_scale = strtod(argval(argc, argv, "--scale", "1"), 0);
	mon_thorough = strcmp(argval(argc, argv, "--tier", "quick"), "thorough") == 0;
	/* 32-bit processes: the heap in the lower half of the address space in some, in the upper one in the others, where addresses are negative as integers */
	if (sizeof(void*) == 4 && !MON_IS_ASAN && !MON_IS_MSAN && !MON_IS_TSAN && (mon_shard & 1)) {
		uintptr_t end = ((uintptr_t)sbrk(0) + 4095) & ~(uintptr_t)4095;
		if (mmap((void*)end, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) perror("note: mmap");
	}
	dict_init();
	memset(&ss, 0, sizeof(ss)); ss.ss_sp = altstack; ss.ss_size = sizeof(altstack);
	if (!MON_IS_ASAN && !MON_IS_MSAN && !MON_IS_TSAN) {
		static const int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
		sigaltstack(&ss, 0);
		memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
		for (i = 0; i < 5; ++i) sigaction(sigs[i], &sa, 0);
	}
	{
		struct itimerval it;
		memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
		sigaction(SIGPROF, &sa, 0);
		it.it_interval.tv_sec = it.it_value.tv_sec = 2; it.it_interval.tv_usec = it.it_value.tv_usec = 0;
		setitimer(ITIMER_PROF, &it, 0);
	}
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);

	for (k = 0; k < mon_cases; ++k) {
		volatile int nt = 0;
		c = reverse ? mon_cases - 1 - k : k;
		if ((c + c / mon_nshards) % mon_nshards != mon_shard && mon_only < 0) continue;
		if (mon_only >= 0 && c != mon_only) continue;
		cur_case = c;
		R.s = mix64(mon_seed, (uint64_t)c * 2 + 1);
		mon_sig = 0xcbf29ce484222325ULL;
		ring_n = 0;
		mon_step_limit = ~(uint64_t)0;
		if (setjmp(mon_abandon_jmp) == 0)
			nt = func(c);
		else
			mon_heap_reset();
		++ran;
		nontrivial += nt != 0;
		mon_digest = mix64(mon_digest, mon_sig);
		printf("CASE %ld %d %016llx\n", (long)c, nt, (unsigned long long)mon_sig);
	}
	for (i = 0; i < nst; ++i)
		printf("%s %s %llu\n", st[i].max ? "MAX" : "STAT", st[i].name, (unsigned long long)st[i].v);
	printf("STAT events %llu\n", (unsigned long long)mon_events);
	if (mon_have_steps) printf("STAT lib_basic_blocks_executed %llu\nMAX lib_distinct_blocks %llu\n", (unsigned long long)mon_steps, (unsigned long long)npc);
	printf("STAT heap_events %llu\n", (unsigned long long)mon_heap_events());
	printf("DIGEST %016llx\n", (unsigned long long)mon_digest);
	printf("DONE cases=%ld nontrivial=%ld\n", ran, nontrivial);
	fflush(stdout);
	return 0;
}
