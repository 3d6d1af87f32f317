/* Monitoring runtime shared by all the harnesses: deterministic generator, verdicts, statistics,
 * monitored heap behind tommy_malloc & co., logical step counter fed by -fsanitize-coverage=trace-pc. */
#ifndef MON_H
#define MON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define MON_MSAN 1
#endif
#if __has_feature(thread_sanitizer)
#define MON_TSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define MON_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#define MON_TSAN 1
#endif
#ifdef MON_ASAN
#define MON_IS_ASAN 1
#else
#define MON_IS_ASAN 0
#endif
#ifdef MON_MSAN
#define MON_IS_MSAN 1
#else
#define MON_IS_MSAN 0
#endif
#ifdef MON_TSAN
#define MON_IS_TSAN 1
#else
#define MON_IS_TSAN 0
#endif

#ifdef __cplusplus
extern "C" {
#endif

/* oracle groups: a harness reports a divergence only if the group is selected by the property being
 * checked; a divergence of another group just abandons the case (it belongs to another property) */
#define O_MEM   0x0001u /* membership, results, count */
#define O_ORD   0x0002u /* order of equal objects */
#define O_EACH  0x0004u /* foreach */
#define O_HEAP  0x0008u /* heap discipline */
#define O_USE   0x0010u /* memory_usage */
#define O_SIZE  0x0020u /* sizing policy */
#define O_WORK  0x0040u /* bounded work */
#define O_ECON  0x0080u /* inner node economy */
#define O_OBJ   0x0100u /* object bytes, node content */
#define O_CB    0x0200u /* callback protocol */
#define O_BAL   0x0400u /* balance */
#define O_ADDR  0x0800u /* addresses: stability, alignment, overlap */
#define O_COST  0x1000u /* cost of each operation */
#define O_STACK 0x2000u /* stack used by each operation */
#define O_FROZEN 0x4000u /* lookups change nothing */
#define O_ALWAYS 0x80000000u /* crash, hang */

extern const char* mon_prop;
extern unsigned mon_mask;
extern uint64_t mon_seed;
extern long mon_shard, mon_nshards, mon_cases, mon_only;
extern double mon_scale;
extern int mon_thorough;
extern const char* mon_variant;

typedef struct { uint64_t s; } mon_rng;
extern mon_rng R;
static inline uint64_t rng_next(mon_rng* r)
{
	uint64_t z = (r->s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static inline uint64_t rnd(void) { return rng_next(&R); }
static inline uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }
static inline int chance(unsigned pct) { return rnd() % 100 < pct; }
static inline uint64_t mix64(uint64_t a, uint64_t b)
{
	mon_rng r; r.s = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x632be59bd9b4e019ULL); rng_next(&r); return rng_next(&r) ^ b;
}
/* mostly small, sometimes as large as max: log-uniform */
static inline uint64_t rndlog(uint64_t max)
{
	unsigned b = 0; uint64_t m = max, v;
	while (m) { ++b; m >>= 1; }
	v = rnd() & ((((uint64_t)1 << (rndn(b) + 1)) - 1));
	return v > max ? v % (max + 1) : v;
}

/* --- constants written in the sources of the library: as values, sizes and positions they are tried more often than chance would */
extern uint64_t mon_dict[1024];
extern int mon_ndict;
uint64_t mon_word(void);                 /* one of them, its neighbours, shifted, in the other half or in both */
static inline uint64_t mon_size(uint64_t max) /* one of them or a neighbour, at most max; or any value */
{
	int i; uint64_t v;
	for (i = 0; i < 8 && mon_ndict; ++i) { v = mon_dict[rndn((uint64_t)mon_ndict)] + rndn(3) - 1; if (v <= max) return v; }
	return rndlog(max);
}

/* --- verdicts */
extern jmp_buf mon_abandon_jmp;
void mon_report(unsigned group, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
#define CHECK(group, cond, key, ...) do { if (!(cond)) mon_report(group, key, __VA_ARGS__); } while (0)
#define REQUIRE(cond) do { if (!(cond)) { fprintf(stdout, "HARNESS-ERROR %s:%d %s\n", __FILE__, __LINE__, #cond); fflush(stdout); _Exit(3); } } while (0)

/* --- trace of the last operations and signature of the case */
void mon_op(const char* op, uint64_t a, uint64_t b, uint64_t c); /* before the call */
void mon_res(uint64_t r);                                       /* after the call */
extern uint64_t mon_sig;      /* signature of the whole result trace of the case */
extern uint64_t mon_digest;   /* signature of all the cases */
extern uint64_t mon_events;   /* operations observed */

/* --- statistics */
void mon_stat(const char* name, uint64_t add);
void mon_max(const char* name, uint64_t value);
void mon_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

/* --- cases */
/* where the objects are placed: plain arrays of nodes or nodes with guards around, at ascending, descending or scattered addresses */
struct mon_layout { int bare, order; uint64_t cap, mask; };
void mon_layout_init(struct mon_layout* l, long index, uint64_t cap);
static inline uint64_t mon_slot(const struct mon_layout* l, uint64_t i) /* i: 0..cap-1 */
{
	return l->order == 0 ? i : l->order == 1 ? l->cap - 1 - i : (i * 0x9E3779B1u) & l->mask;
}
static inline uint64_t mon_slots(const struct mon_layout* l) { return l->order == 2 ? l->mask + 1 : l->cap; }
typedef int mon_case_func(long index); /* returns 1 if non trivial */
int mon_main(int argc, char** argv, const char* name, mon_case_func* func);

/* --- steps: basic blocks executed inside the library */
extern uint64_t mon_steps, mon_step_limit;
extern int mon_have_steps;
extern uintptr_t mon_sp_base, mon_sp_min;
extern uint64_t mon_sp_most;
static inline void mon_budget(uint64_t n) { mon_step_limit = mon_steps + n; mon_sp_base = mon_sp_min = (uintptr_t)__builtin_frame_address(0); }
/* end of an operation: a recursion as deep as the content takes some 48 bytes of stack for each object */
#define MON_STACK 32768
#define mon_op_end() do { \
	mon_step_limit = ~(uint64_t)0; \
	if (mon_have_steps) { \
		uint64_t used_ = mon_sp_base > mon_sp_min ? (uint64_t)(mon_sp_base - mon_sp_min) : 0; \
		if (used_ > mon_sp_most) { mon_sp_most = used_; mon_max("max_stack_bytes", used_); } \
		CHECK(O_STACK, used_ <= MON_STACK, "stack-in-proportion", "an operation used %llu bytes of stack", (unsigned long long)used_); \
	} \
} while (0)
uint64_t mon_pcs(void);

/* --- heap */
struct mon_heap_info {
	uint64_t mallocs, callocs, reallocs, frees; /* events */
	uint64_t live, live_bytes;                  /* blocks not released */
	uint64_t peak_live, max_block;
};
extern struct mon_heap_info H;
extern int mon_heap_forbid;   /* the running operation must not touch the heap */
extern int mon_heap_nofree;   /* the running operation must not release memory */
extern int mon_heap_noalloc;  /* the running operation must not request memory */
extern unsigned mon_heap_group;
extern unsigned mon_heap_fill;/* byte pattern selector for fresh memory */
extern unsigned mon_heap_skew;/* extra offset, multiple of 16, of returned blocks */
void* mon_malloc(size_t n);
void* mon_calloc(size_t n, size_t m);
void* mon_realloc(void* p, size_t n);
void mon_free(void* p);
void mon_heap_audit(void);    /* canaries of all the live blocks */
int mon_heap_owner(const void* p, size_t n, uintptr_t* base, size_t* size); /* block containing [p, p+n) */
void mon_heap_leakcheck(const char* what);
void mon_heap_reset(void);    /* forget (and leak) everything */
void mon_bypass(const char* what);
uint64_t mon_rss(void); /* bytes of memory the process really holds */
void* mon_memset(void* p, int c, size_t n); /* memset, which gives back to the system the pages of huge blocks cleared */
void mon_garbage(void* p, size_t n); /* fill with pseudo random bytes; poison under MSan */
#define mon_heap_events() (H.mallocs + H.callocs + H.reallocs + H.frees)

#ifdef __cplusplus
}
#endif
#endif
