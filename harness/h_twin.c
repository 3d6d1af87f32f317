/* Containers whose elements share data pointers, and data pointers of any value: the same object contained several times through
 * different nodes (an entry and its aliases), null, all ones, small numbers, the address of the node itself, of another
 * node, of the container, of a function. Elements are identified by their nodes alone. */
#include "sut.h"
#include "sut_api.h"

enum { HT, HD, HL, TR, TI, LI, NKIND };
static const char* kname[NKIND] = { "hashtable", "hashdyn", "hashlin", "trie", "inplace", "list" };
#define NN 400
#define NC 3
struct node { union { tommy_node n; tommy_trie_inplace_node t; } u; uint32_t pad; };
struct el { void* data; uint64_t key; int in; };
struct cont {
	union { tommy_hashtable ht; tommy_hashdyn hd; tommy_hashlin hl; tommy_trie tr; tommy_trie_inplace ti; tommy_list li; } u;
	int kind, live; uint32_t n; uint16_t seq[NN];
};
static struct cont C[NC]; static unsigned ncont;
static struct node N[NN]; static struct el M[NN]; static unsigned nn;
static tommy_allocator AL;
static void* D[16]; static unsigned nd;
static uint64_t K[24]; static unsigned nk;
static struct { struct cont* c; const void* arg; void* want; uint64_t key, calls, due; int in; } G;
static const void* args[8];

#define c_(t) ((tommy_##t*)&c->u)
#define MAPS(ht, hd, hl, tr, ti, li) switch (c->kind) { case HT: ht; break; case HD: hd; break; case HL: hl; break; case TR: tr; break; case TI: ti; break; default: li; break; }
static int has(const char* w) { return strstr(mon_variant, w) != 0; }

static int cb_search(const void* arg, const void* data)
{
	struct cont* c = G.c; uint32_t i;
	CHECK(O_CB, G.in, "called-outside", "a comparison function was called by an operation that has none");
	CHECK(O_CB | O_MEM, arg == G.arg, "wrong-argument", "the comparison function of a %s got %p as first argument instead of the one given", kname[c->kind], arg);
	for (i = 0; i < c->n && !(M[c->seq[i]].key == G.key && M[c->seq[i]].data == data); ++i) ;
	CHECK(O_CB | O_MEM, i < c->n, "foreign-object", "the comparison function of a %s got an object not contained or of another hash", kname[c->kind]);
	++G.calls;
	CHECK(O_CB, G.calls <= G.due, "called-after-match", "the comparison function of a %s was called %llu times, %llu are enough to meet the first match", kname[c->kind], (unsigned long long)G.calls, (unsigned long long)G.due);
	return data != G.want ? chance(50) ? 1 : -1 : 0;
}
/* sort: by data, as far as the order chosen says */
static unsigned ordering;
static int rank_of(const void* d) { unsigned i; for (i = 0; i < nd && D[i] != d; ++i) ; return ordering == 0 ? 0 : ordering == 1 ? (int)(i / 2) : ordering == 2 ? -(int)i : d == 0; }
static uint64_t self_rank(const void* d) { return (uint64_t)(uintptr_t)d; }
static int cb_cmp(const void* a, const void* b)
{
	struct cont* c = G.c; uint32_t i; int x = 0, y = 0;
	CHECK(O_CB, G.in, "called-outside", "a comparison function was called by an operation that has none");
	for (i = 0; i < c->n; ++i) { x |= M[c->seq[i]].data == a; y |= M[c->seq[i]].data == b; }
	CHECK(O_CB | O_MEM, x && y, "foreign-object", "the comparison function of a sort got an object that is not in the list");
	if (ordering == 4) return self_rank(a) < self_rank(b) ? -1 : self_rank(a) > self_rank(b);
	return rank_of(a) - rank_of(b);
}
static int node_id(const void* p)
{
	uintptr_t a = (uintptr_t)p, b = (uintptr_t)N;
	return a < b || a >= b + sizeof(N) || (a - b) % sizeof(N[0]) ? -1 : (int)((a - b) / sizeof(N[0]));
}
static void* any_data(unsigned e)
{
	switch (rndn(14)) {
	case 0: return 0;
	case 1: return (void*)~(uintptr_t)0;
	case 2: return (void*)(uintptr_t)mon_word();
	case 3: return &C[rndn(NC)];
	case 4: case 5: return &N[e];
	case 6: return &N[rndn(nn)];
	case 7: return (void*)(uintptr_t)cb_cmp;
	case 8: return (void*)(uintptr_t)(1 + rndn(16));
	case 9: return (void*)&G;
	case 10: return (void*)((uintptr_t)1 << rndn(sizeof(void*) * 8));
	default: return D[rndn(nd)];
	}
}
static uint64_t count_of(struct cont* c)
{
	uint64_t v = 0;
	MAPS(v = s_hashtable_count(c_(hashtable)), v = s_hashdyn_count(c_(hashdyn)), v = s_hashlin_count(c_(hashlin)), v = s_trie_count(c_(trie)), v = s_trie_inplace_count(c_(trie_inplace)), v = s_list_count(c_(list)))
	return v;
}
/* nodes of the same key in order of insertion, or of the list */
static void audit(struct cont* c, uint64_t key)
{
	uint32_t i = 0; unsigned guard = 0; const void* p = 0; const void* first = 0;
	if (c->kind == TI) {
		tommy_trie_inplace_node* t = s_trie_inplace_bucket(c_(trie_inplace), (tommy_key_t)key);
		for (; t; t = t->next) {
			while (i < c->n && M[c->seq[i]].key != key) ++i;
			CHECK(O_MEM | O_ORD, i < c->n && (void*)t == (void*)&N[c->seq[i]], "wrong-node", "the bucket of a key of an in-place trie with %u nodes has another node than the one due", c->n);
			CHECK(O_MEM | O_OBJ, t->data == M[c->seq[i]].data, "node-data", "a node of an in-place trie has not the data given");
			++i;
		}
	} else {
		tommy_node* t = 0;
		MAPS(t = s_hashtable_bucket(c_(hashtable), (tommy_hash_t)key), t = s_hashdyn_bucket(c_(hashdyn), (tommy_hash_t)key), t = s_hashlin_bucket(c_(hashlin), (tommy_hash_t)key), t = s_trie_bucket(c_(trie), (tommy_key_t)key), (void)0, t = s_list_head(c_(list)))
		first = t;
		for (; t; p = t, t = t->next) {
			int e = node_id(t);
			CHECK(O_MEM, e >= 0 && M[e].in == (int)(c - C) && ++guard <= c->n, "foreign-node", "a %s has a node that is not contained, or one twice", kname[c->kind]);
			if (c->kind == LI) CHECK(O_MEM | O_ORD, t == first || t->prev == p, "broken-links", "the links of a list of %u nodes do not agree", c->n);
			else if (c->kind != TR && M[e].key != key) continue;
			while (i < c->n && c->kind != LI && M[c->seq[i]].key != key) ++i;
			CHECK(O_MEM | O_ORD, i < c->n && e == c->seq[i], "wrong-node", "in a %s with %u nodes, some with the same data, a node is not the one due", kname[c->kind], c->n);
			CHECK(O_MEM | O_OBJ, t->data == M[e].data, "node-data", "a node of a %s has not the data given", kname[c->kind]);
			++i;
		}
		if (c->kind == LI) {
			CHECK(O_MEM, s_list_tail(c_(list)) == (tommy_node*)p && !s_list_empty(c_(list)) == (c->n != 0), "list-tail", "tail or emptiness of a list of %u nodes", c->n);
		}
	}
	while (i < c->n && c->kind != LI && M[c->seq[i]].key != key) ++i;
	CHECK(O_MEM, i >= c->n, "lost-node", "a node of a %s with %u nodes, some with the same data, is not reached", kname[c->kind], c->n);
	CHECK(O_MEM, count_of(c) == c->n, "wrong-count", "a %s of %u nodes counts %llu", kname[c->kind], c->n, (unsigned long long)count_of(c));
}
static void take(struct cont* c, uint32_t at)
{
	M[c->seq[at]].in = -1;
	memmove(&c->seq[at], &c->seq[at + 1], (c->n - at - 1) * sizeof(c->seq[0])); --c->n;
}
static void insert(struct cont* c, unsigned e)
{
	struct el* m = &M[e]; int head = c->kind == LI && chance(30); uint32_t at = head ? 0 : c->n;
	m->data = any_data(e); m->key = K[rndn(nk)];
	if (c->kind == TR || c->kind == TI) m->key &= 0xffffffffu;
	if (c->n && chance(40)) { /* an alias of an object, next to it or elsewhere */
		struct el* o = &M[c->seq[chance(50) ? c->n - 1 : rndn(c->n)]];
		m->data = o->data; if (chance(60)) m->key = o->key;
	}
	mon_garbage(&N[e].u, sizeof(N[e].u));
	mon_op(head ? "insert_head" : "insert", (uint64_t)c->kind, e, m->key);
	MAPS(s_hashtable_insert(c_(hashtable), &N[e].u.n, m->data, (tommy_hash_t)m->key), s_hashdyn_insert(c_(hashdyn), &N[e].u.n, m->data, (tommy_hash_t)m->key), s_hashlin_insert(c_(hashlin), &N[e].u.n, m->data, (tommy_hash_t)m->key),
		s_trie_insert(c_(trie), &N[e].u.n, m->data, (tommy_key_t)m->key), s_trie_inplace_insert(c_(trie_inplace), &N[e].u.t, m->data, (tommy_key_t)m->key),
		if (head) s_list_insert_head(c_(list), &N[e].u.n, m->data); else s_list_insert_tail(c_(list), &N[e].u.n, m->data))
	mon_res(c->n);
	memmove(&c->seq[at + 1], &c->seq[at], (c->n - at) * sizeof(c->seq[0])); c->seq[at] = (uint16_t)e; ++c->n; m->in = (int)(c - C);
}
static void remove_existing(struct cont* c)
{
	uint32_t at = (uint32_t)rndn(c->n); unsigned e = c->seq[at]; void* r = 0; uint64_t key = M[e].key;
	mon_op("remove_existing", (uint64_t)c->kind, e, 0);
	MAPS(r = s_hashtable_remove_existing(c_(hashtable), &N[e].u.n), r = s_hashdyn_remove_existing(c_(hashdyn), &N[e].u.n), r = s_hashlin_remove_existing(c_(hashlin), &N[e].u.n),
		r = s_trie_remove_existing(c_(trie), &N[e].u.n), r = s_trie_inplace_remove_existing(c_(trie_inplace), &N[e].u.t), r = s_list_remove_existing(c_(list), &N[e].u.n))
	CHECK(O_MEM, r == M[e].data, "wrong-data", "removing a node of a %s returned not its data", kname[c->kind]);
	take(c, at); mon_res(at);
	mon_garbage(&N[e].u, sizeof(N[e].u));
	audit(c, key);
}
static void look(struct cont* c, int removal)
{
	uint64_t key = c->n && chance(85) ? M[c->seq[rndn(c->n)]].key : K[rndn(nk)]; uint32_t i, at; void* r = 0; void* due;
	if (c->kind == LI) { audit(c, 0); return; }
	if (c->kind == TR || c->kind == TI) key &= 0xffffffffu;
	G.want = c->n && chance(85) ? M[c->seq[rndn(c->n)]].data : any_data(0);
	G.c = c; G.key = key; G.calls = G.due = 0; G.in = 1;
	args[0] = G.want; args[1] = 0; args[2] = c; args[3] = &N[rndn(nn)]; args[4] = &G; args[5] = D[rndn(nd)];
	G.arg = args[rndn(6)];
	for (i = 0, at = c->n; i < c->n && at == c->n; ++i) if (M[c->seq[i]].key == key) { if (c->kind == TR || c->kind == TI || M[c->seq[i]].data == G.want) at = i; ++G.due; }
	due = at < c->n ? M[c->seq[at]].data : 0;
	mon_op(removal ? "remove" : "search", (uint64_t)c->kind, key, at);
	if (removal) {
		MAPS(r = s_hashtable_remove(c_(hashtable), cb_search, G.arg, (tommy_hash_t)key), r = s_hashdyn_remove(c_(hashdyn), cb_search, G.arg, (tommy_hash_t)key), r = s_hashlin_remove(c_(hashlin), cb_search, G.arg, (tommy_hash_t)key),
			r = s_trie_remove(c_(trie), (tommy_key_t)key), r = s_trie_inplace_remove(c_(trie_inplace), (tommy_key_t)key), (void)0)
	} else {
		MAPS(r = s_hashtable_search(c_(hashtable), cb_search, G.arg, (tommy_hash_t)key), r = s_hashdyn_search(c_(hashdyn), cb_search, G.arg, (tommy_hash_t)key), r = s_hashlin_search(c_(hashlin), cb_search, G.arg, (tommy_hash_t)key),
			r = s_trie_search(c_(trie), (tommy_key_t)key), r = s_trie_inplace_search(c_(trie_inplace), (tommy_key_t)key), (void)0)
	}
	G.in = 0;
	CHECK(O_MEM, r == due, removal ? "wrong-removal" : "wrong-search", "%s in a %s of %u nodes returned %p, due is %p", removal ? "remove" : "search", kname[c->kind], c->n, r, due);
	CHECK(O_MEM, at == c->n || c->kind >= TR || G.calls, "match-without-asking", "an object of a %s was found without calling the comparison function", kname[c->kind]);
	mon_res((at << 8) + G.calls);
	if (removal && at < c->n) { unsigned e = c->seq[at]; take(c, at); mon_garbage(&N[e].u, sizeof(N[e].u)); }
	audit(c, key);
}
static uint32_t seen_n; static uint8_t seen[NN];
static void each(void* data)
{
	struct cont* c = G.c; uint32_t i;
	CHECK(O_CB, G.in == 2, "called-outside", "the callback of foreach was called by another operation");
	if (c->kind == LI) { CHECK(O_EACH, seen_n < c->n && M[c->seq[seen_n]].data == data, "foreach-order", "foreach gave another object than that at position %u of a list of %u", seen_n, c->n); ++seen_n; return; }
	for (i = 0; i < c->n && (seen[i] || M[c->seq[i]].data != data); ++i) ;
	CHECK(O_EACH, i < c->n, "foreach-object", "foreach over a %s of %u nodes gave a data pointer not contained, or more times than contained", kname[c->kind], c->n);
	seen[i] = 1; ++seen_n;
}
static void each_arg(void* arg, void* data) { CHECK(O_EACH | O_CB, arg == G.arg, "foreach-argument", "foreach gave another argument"); each(data); }
static void foreach(struct cont* c)
{
	int a = chance(50);
	if (c->kind == TR || c->kind == TI) { audit(c, K[rndn(nk)] & 0xffffffffu); return; }
	G.c = c; G.in = 2; seen_n = 0; memset(seen, 0, sizeof(seen));
	args[0] = any_data(0); args[1] = c; args[2] = 0; G.arg = args[rndn(3)];
	mon_op("foreach", (uint64_t)c->kind, c->n, (uint64_t)a);
	if (a) { MAPS(s_hashtable_foreach_arg(c_(hashtable), each_arg, (void*)G.arg), s_hashdyn_foreach_arg(c_(hashdyn), each_arg, (void*)G.arg), s_hashlin_foreach_arg(c_(hashlin), each_arg, (void*)G.arg), (void)0, (void)0, s_list_foreach_arg(c_(list), each_arg, (void*)G.arg)) }
	else { MAPS(s_hashtable_foreach(c_(hashtable), each), s_hashdyn_foreach(c_(hashdyn), each), s_hashlin_foreach(c_(hashlin), each), (void)0, (void)0, s_list_foreach(c_(list), each)) }
	G.in = 0; mon_res(seen_n);
	CHECK(O_EACH, seen_n == c->n, "foreach-missed", "foreach over a %s of %u nodes, some with the same data, made %u visits", kname[c->kind], c->n, seen_n);
}
static void sort(struct cont* c)
{
	uint16_t tmp; uint32_t i, j;
	ordering = (unsigned)rndn(5); G.c = c; G.in = 1;
	mon_op("sort", c->n, ordering, 0);
	s_list_sort(c_(list), cb_cmp);
	for (i = 1; i < c->n; ++i) for (tmp = c->seq[i], j = i; j > 0 && cb_cmp(M[c->seq[j - 1]].data, M[tmp].data) > 0; --j) { c->seq[j] = c->seq[j - 1]; c->seq[j - 1] = tmp; }
	G.in = 0; mon_res(ordering);
	audit(c, 0);
}
static void concat(struct cont* c, struct cont* d)
{
	uint32_t i;
	mon_op("concat", c->n, d->n, 0);
	s_list_concat(c_(list), &d->u.li);
	for (i = 0; i < d->n; ++i) { M[d->seq[i]].in = (int)(c - C); c->seq[c->n++] = d->seq[i]; }
	d->n = 0; s_list_init(&d->u.li); mon_res(c->n);
	audit(c, 0);
}
static int case_func(long index)
{
	unsigned i, ops, types = 0, kinds[NKIND], nkinds = 0, most = 0; uint64_t aliases = 0; char w[24];
	for (i = 0; i < NKIND; ++i) { snprintf(w, sizeof(w), "+%s ", kname[i]); if (!strchr(mon_variant, '+') || has(w)) kinds[nkinds++] = i; }
	nn = 2 + (unsigned)rndn(NN - 1); if (chance(50)) nn = 2 + (unsigned)rndn(24);
	nd = 1 + (unsigned)rndn(chance(50) ? 3 : 15); nk = 1 + (unsigned)rndn(chance(50) ? 3 : 24);
	ncont = 1 + (unsigned)rndn(NC);
	memset(D, 0, sizeof(D));
	for (i = 0; i < nd; ++i) { D[i] = any_data((unsigned)rndn(nn)); }
	for (i = 0; i < nk; ++i) K[i] = chance(30) ? mon_word() : chance(50) ? rndn(64) << rndn(30) : rnd();
	for (i = 0; i < nk; ++i) K[i] = (uint64_t)(tommy_hash_t)K[i];
	for (i = 0; i < nn; ++i) { M[i].in = -1; mon_garbage(&N[i], sizeof(N[i])); }
	s_allocator_init(&AL, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE);
	for (i = 0; i < ncont; ++i) {
		struct cont* c = &C[i];
		mon_garbage(&c->u, sizeof(c->u)); c->n = 0; c->kind = (int)(i && chance(60) ? (unsigned)C[0].kind : kinds[i ? rndn(nkinds) : (uint64_t)index % nkinds]);
		mon_op("init", (uint64_t)c->kind, i, 0);
		MAPS(s_hashtable_init(c_(hashtable), 16), s_hashdyn_init(c_(hashdyn)), s_hashlin_init(c_(hashlin)), s_trie_init(c_(trie), &AL), s_trie_inplace_init(c_(trie_inplace)), s_list_init(c_(list)))
		types |= 1u << c->kind;
	}
	ops = 40 + (unsigned)rndlog(2000);
	for (i = 0; i < ops; ++i) {
		struct cont* c = &C[rndn(ncont)]; unsigned e = (unsigned)rndn(nn), w2 = (unsigned)rndn(100), phase = (unsigned)(i * 6 / ops) & 1;
		if (w2 < (phase ? 22u : 40u)) { if (M[e].in < 0) { insert(c, e); if (c->n > most) most = c->n; } }
		else if (w2 < 60) { if (c->n) remove_existing(c); }
		else if (w2 < 72) look(c, c->kind == LI || chance(phase ? 80 : 40));
		else if (w2 < 88) look(c, 0);
		else if (w2 < 95 || c->kind != LI) foreach(c);
		else {
			struct cont* d = &C[rndn(ncont)];
			if (d != c && d->kind == LI && chance(40)) concat(c, d); else sort(c);
		}
	}
	for (i = 0; i < ncont; ++i) {
		struct cont* c = &C[i]; uint32_t j, k;
		for (j = 0; j < nk; ++j) audit(c, c->kind == TR || c->kind == TI ? K[j] & 0xffffffffu : K[j]);
		for (j = 0; j < c->n; ++j) for (k = 0; k < j; ++k) if (M[c->seq[j]].data == M[c->seq[k]].data) { ++aliases; break; }
		foreach(c);
		MAPS(s_hashtable_done(c_(hashtable)), s_hashdyn_done(c_(hashdyn)), s_hashlin_done(c_(hashlin)), while (c->n) remove_existing(c), (void)0, (void)0)
	}
	s_allocator_done(&AL);
	mon_heap_leakcheck("after done");
	mon_max("max_nodes", most); mon_stat("nodes_of_an_object_contained_already", aliases);
	mon_sample("%u containers of kinds 0x%x, %u nodes, %u data values, %u keys, %u operations", ncont, types, nn, nd, nk, ops);
	return most > 2;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_twin", case_func); }
