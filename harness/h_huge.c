/* Fixed hash tables of up to 2^34 buckets, in address space that is reserved and (almost) never touched: what sizes,
 * masks and positions of more than 32 bits do. The objects are a few hundred, with hashes of the full width. */
#include "sut.h"
#include "sut_api.h"
#include <sys/mman.h>
#include <unistd.h>
#define MAXO 400
struct obj { tommy_node n; uint64_t hash; int in; unsigned stamp; };
static struct obj O[MAXO];
static int no, running; static unsigned stamp; static tommy_hashtable T; static uint64_t reqn;
static struct { uint64_t hash; int want; } S;
static int cb(const void* arg, const void* d)
{
	const struct obj* o = (const struct obj*)d;
	CHECK(O_CB, running && arg == &S, "callback-out-of-operation", "the comparison function is called with argument %p, given %p", arg, (void*)&S);
	CHECK(O_MEM | O_CB, o >= O && o < O + no && o->in, "callback-foreign-object", "the comparison function got something not contained");
	CHECK(O_MEM | O_CB, o->hash == S.hash, "callback-foreign-object", "the comparison function got an object with hash %llx, searching %llx", (unsigned long long)o->hash, (unsigned long long)S.hash);
	return S.want >= 0 ? o != &O[S.want] : 0;
}
static int first(uint64_t hash) { int i, f = -1; for (i = 0; i < no; ++i) if (O[i].in && O[i].hash == hash && (f < 0 || O[i].stamp < O[f].stamp)) f = i; return f; }
static uint64_t count(void) { uint64_t n = 0; int i; for (i = 0; i < no; ++i) n += (uint64_t)O[i].in; return n; }
static void totals(void)
{
	uint64_t n = count(), u, c;
	mon_heap_forbid = 1; c = s_hashtable_count(&T); u = s_hashtable_memory_usage(&T); mon_heap_forbid = 0;
	CHECK(O_MEM, c == n, "wrong-count", "the count is %llu, %llu objects are contained", (unsigned long long)c, (unsigned long long)n);
	CHECK(O_USE, u == H.live_bytes + n * sizeof(tommy_node), "wrong-memory-usage", "a fixed table of %llu buckets and %llu objects reports %llu bytes, it uses %llu", (unsigned long long)(H.live_bytes / sizeof(void*)), (unsigned long long)n, (unsigned long long)u, (unsigned long long)(H.live_bytes + n * sizeof(tommy_node)));
	mon_stat("usage_checks", 1);
}
static void audit(void)
{
	int i;
	for (i = 0; i < no; ++i) {
		int f = first(O[i].hash), x; const void* d; tommy_node* b; unsigned last = 0, len = 0; int met = 0;
		mon_op("search", (uint64_t)i, O[i].hash, 0);
		S.hash = O[i].hash; S.want = chance(50) ? i : -1;
		x = S.want < 0 ? f : O[i].in ? i : -1;
		running = 1; mon_heap_forbid = 1; d = s_hashtable_search(&T, cb, &S, (tommy_hash_t)S.hash); mon_heap_forbid = 0; running = 0;
		CHECK(O_MEM, x < 0 ? !d : d != 0, x < 0 ? "phantom-object" : "lost-object", "search of hash %llx in %llu buckets found %p", (unsigned long long)S.hash, (unsigned long long)reqn, d);
		CHECK(O_ORD | O_MEM, x < 0 || d == &O[x], "not-first", "search of hash %llx returned another object than the first inserted", (unsigned long long)S.hash);
		b = s_hashtable_bucket(&T, (tommy_hash_t)O[i].hash);
		for (; b; b = b->next) {
			const struct obj* o = (const struct obj*)b->data;
			CHECK(O_MEM, o >= O && o < O + no && o->in && &o->n == b && ++len <= (unsigned)no, "foreign-node", "the bucket of hash %llx has a node which is not of a contained object", (unsigned long long)O[i].hash);
			if (o->hash == O[i].hash) { CHECK(O_ORD, o->stamp > last, "bucket-order", "objects with hash %llx are not in insertion order", (unsigned long long)o->hash); last = o->stamp; }
			if (o == &O[i]) met = 1;
		}
		CHECK(O_MEM, met == O[i].in, "bucket-membership", "object %d with hash %llx is %scontained but %sin the bucket of its hash", i, (unsigned long long)O[i].hash, O[i].in ? "" : "not ", met ? "" : "not ");
		mon_max("max_chain", len);
		mon_res(x >= 0);
	}
	totals();
	mon_stat("full_audits", 1);
}
static unsigned visits[MAXO];
static void each(void* arg, void* d) { struct obj* o = (struct obj*)d; CHECK(O_EACH, arg == &T && o >= O && o < O + no && o->in, "foreach-foreign", "foreach visited something not contained"); ++visits[o - O]; }
static int lazy = -1; /* the table is cleared without touching it */
static int run_case(long index)
{
	int i, ops; uint64_t want, n, b; unsigned bits, top;
	mon_heap_fill = (unsigned)rndn(4);
	if (lazy < 0) {
		uint64_t r = mon_rss();
		s_hashtable_init(&T, (tommy_size_t)1 << 26); lazy = mon_rss() - r < (uint64_t)100 << 20; s_hashtable_done(&T);
	}
	if (sizeof(void*) < 8) top = 27;
	else {
		void* v = mmap(0, (size_t)300 << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		top = v == MAP_FAILED || !lazy ? 27 : 34;
		if (v != MAP_FAILED) munmap(v, (size_t)300 << 30);
	}
	/* bits: of the number of buckets */
	bits = top < 34 ? 20 + (unsigned)rndn(top - 19) : index % 2 ? 29 + (unsigned)rndn(6) : 20 + (unsigned)rndn(15);
	switch (rndn(4)) {
	case 0: n = (uint64_t)1 << bits; break;
	case 1: n = ((uint64_t)1 << bits) - 1 - rndlog(((uint64_t)1 << (bits - 1)) - 2); break;
	case 2: n = ((uint64_t)1 << (bits - 1)) + 1 + rndlog(100); break;
	default: n = ((uint64_t)1 << (bits - 1)) + 1 + rndn(((uint64_t)1 << (bits - 1)) - 1);
	}
	for (want = 16; want < n; want *= 2) {}
	reqn = n; stamp = 0; no = 20 + (int)rndn(MAXO - 20);
	mon_garbage(&T, sizeof(T));
	mon_op("init", n, 0, 0);
	s_hashtable_init(&T, (tommy_size_t)n);
	b = H.live_bytes / sizeof(void*);
	CHECK(O_SIZE, b == want, "hashtable-buckets", "a fixed table for %llu buckets has %llu instead of %llu", (unsigned long long)n, (unsigned long long)b, (unsigned long long)want);
	/* what follows uses positions up to the number of buckets announced: without their memory there is nothing to observe */
	CHECK(O_MEM | O_HEAP, H.live_bytes / sizeof(void*) >= n, "hashtable-buckets", "a fixed table for %llu buckets has memory for %llu", (unsigned long long)n, (unsigned long long)b);
	mon_res(b);
	for (i = 0; i < no; ++i) {
		uint64_t h = rnd();
		switch (rndn(8)) {
		case 0: h = want - 1 - rndn(3); break;
		case 1: h = want + rndn(3); break;
		case 2: h = (uint64_t)1 << rndn(64); break;
		case 3: h &= 0xffffffff; break;
		case 4: h = i ? O[rndn((uint64_t)i)].hash : 0; break;
		case 5: h = i ? O[rndn((uint64_t)i)].hash ^ (uint64_t)1 << rndn(64) : 1; break;
		case 6: h = mon_word(); break;
		}
		O[i].hash = (tommy_hash_t)h; O[i].in = 0; mon_garbage(&O[i].n, sizeof(O[i].n));
	}
	ops = 100 + (int)rndn(900);
	for (i = 0; i < ops; ++i) {
		int x = (int)rndn((uint64_t)no); const void* d;
		if (!O[x].in) {
			mon_op("insert", (uint64_t)x, O[x].hash, 0);
			mon_heap_forbid = 1; s_hashtable_insert(&T, &O[x].n, &O[x], (tommy_hash_t)O[x].hash); mon_heap_forbid = 0;
			O[x].in = 1; O[x].stamp = ++stamp;
		} else if (chance(50)) {
			mon_op("remove_existing", (uint64_t)x, O[x].hash, 0);
			mon_heap_forbid = 1; d = s_hashtable_remove_existing(&T, &O[x].n); mon_heap_forbid = 0;
			CHECK(O_MEM, d == &O[x], "wrong-data", "remove_existing returned %p instead of %p", d, (void*)&O[x]);
			O[x].in = 0;
		} else {
			int f = first(O[x].hash);
			mon_op("remove", (uint64_t)x, O[x].hash, 0);
			S.hash = O[x].hash; S.want = -1;
			running = 1; mon_heap_forbid = 1; d = s_hashtable_remove(&T, cb, &S, (tommy_hash_t)S.hash); mon_heap_forbid = 0; running = 0;
			CHECK(O_MEM, d != 0, "lost-object", "remove of hash %llx found nothing", (unsigned long long)S.hash);
			CHECK(O_ORD | O_MEM, d == &O[f], "not-first", "remove of hash %llx took out another object than the first inserted", (unsigned long long)S.hash);
			O[f].in = 0;
		}
		mon_res(0);
		if (chance(2)) audit();
		totals();
	}
	audit();
	if (want <= (uint64_t)1 << 26) {
		memset(visits, 0, sizeof(visits));
		mon_op("foreach", want, 0, 0);
		s_hashtable_foreach_arg(&T, each, &T);
		for (i = 0; i < no; ++i) CHECK(O_EACH, visits[i] == (unsigned)O[i].in, "foreach-count", "foreach visited object %d %u times", i, visits[i]);
		mon_res(0);
	}
	mon_op("done", 0, 0, 0);
	s_hashtable_done(&T);
	mon_res(0);
	mon_heap_leakcheck("done");
	mon_sample("fixed table for %llu buckets, %d operations on %d objects", (unsigned long long)n, ops, no);
	mon_max("max_buckets", want);
	mon_stat("tables_over_4_gib", want >= (uint64_t)1 << 29);
	mon_stat("tables_over_32_bits", want > (uint64_t)1 << 32);
	mon_heap_reset();
	return 1;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_huge", run_case); }
