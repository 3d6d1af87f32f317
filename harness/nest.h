/* Operations on other containers done by the callbacks of an operation, and by the callbacks of those: the library keeps
 * nothing outside the containers, so each one has its own results and the operation in progress is not disturbed.
 * NEST_GROUP is the oracle group of a wrong result, NEST_HEAP allows containers that use the heap. */
#ifndef NEST_H
#define NEST_H
#define NEST_DEPTH 4
#define NEST_N 14
static __thread uint64_t nest_x, nest_total; static __thread unsigned nest_depth, nest_left, nest_one_in;
struct nest_ob { tommy_node n; tommy_trie_inplace_node t; unsigned key, id; };
struct nest_ctx { struct nest_ob o[NEST_N]; unsigned n, visits, depth, last; const struct nest_ob* arg; };
static __thread struct nest_ctx* nest_cur;
static void nest_run(void);
static void nest_begin(uint64_t seed, unsigned left, unsigned one_in) { nest_x = seed | 1; nest_left = left; nest_one_in = one_in; nest_depth = 0; nest_cur = 0; }
static unsigned nest_rnd(unsigned n) { nest_x ^= nest_x << 13; nest_x ^= nest_x >> 7; nest_x ^= nest_x << 17; return (unsigned)((nest_x * 0x2545f4914f6cdd1dULL) >> 33) % n; }
/* called by the callbacks */
static void nest_maybe(void)
{
	if (!nest_left || nest_depth >= NEST_DEPTH || nest_rnd(nest_depth ? 6 : nest_one_in)) return;
	--nest_left;
	nest_run();
}
#define NEST_CHECK(cond, key, ...) CHECK(NEST_GROUP, cond, "nested-" key, __VA_ARGS__)
static int nest_is(const struct nest_ctx* c, const void* p) { const char* b = (const char*)c->o; const char* q = (const char*)p; return q >= b && q < (const char*)(c->o + c->n) && (size_t)(q - b) % sizeof(c->o[0]) == 0; }
static int nest_cmp(const void* a, const void* b)
{
	struct nest_ctx* c = nest_cur; const struct nest_ob* x = (const struct nest_ob*)a; const struct nest_ob* y = (const struct nest_ob*)b;
	NEST_CHECK(c && nest_is(c, a) && nest_is(c, b), "foreign-object", "the comparison function of an operation called by a callback got objects of another one");
	nest_maybe();
	NEST_CHECK(nest_cur == c, "context", "context");
	return x->key < y->key ? -1 : x->key > y->key;
}
static int nest_search(const void* a, const void* b)
{
	struct nest_ctx* c = nest_cur;
	NEST_CHECK(c && a == (const void*)c->arg && nest_is(c, b), "wrong-argument", "the comparison function of an operation called by a callback got the argument or objects of another one");
	nest_maybe();
	return a != b;
}
static void nest_each_arg(void* a, void* b)
{
	struct nest_ctx* c = nest_cur;
	NEST_CHECK(a == (void*)c && nest_is(c, b), "wrong-argument", "foreach called by a callback gave the argument or an object of another one");
	++c->visits;
	nest_maybe();
}
static void nest_each(void* b) { nest_each_arg(nest_cur, b); }
static void nest_run(void)
{
	struct nest_ctx c; struct nest_ctx* up = nest_cur; unsigned i, j, removed = 0, what;
#ifndef NEST_THREADS
	uint64_t steps0 = mon_steps;
#endif
	++nest_depth; nest_cur = &c; c.visits = 0; c.depth = nest_depth;
	c.n = 2 + nest_rnd(NEST_N - 1);
	what = nest_rnd(
#ifdef NEST_HEAP
		10
#else
		5
#endif
	);
	for (i = 0; i < c.n; ++i) { c.o[i].id = i; c.o[i].key = nest_rnd(3) ? nest_rnd(9) : nest_rnd(2) ? i : 100 - i; }
	switch (what) {
	case 0: case 1: { /* stable sort */
		tommy_list l; tommy_node* p; const struct nest_ob* prev = 0;
		s_list_init(&l);
		for (i = 0; i < c.n; ++i) s_list_insert_tail(&l, &c.o[i].n, &c.o[i]);
		s_list_sort(&l, nest_cmp);
		for (i = 0, p = s_list_head(&l); p; p = p->next, ++i) {
			const struct nest_ob* x = (const struct nest_ob*)p->data;
			NEST_CHECK(i < c.n && nest_is(&c, x), "sort-lost", "a sort called by the callback of another operation put other objects in its list");
			NEST_CHECK(!prev || prev->key < x->key || (prev->key == x->key && prev->id < x->id), "sort-order", "a sort called by the callback of another operation left the list out of order");
			prev = x;
		}
		NEST_CHECK(i == c.n, "sort-lost", "a sort called by the callback of another operation left %u of %u objects", i, c.n);
		if (what) { s_list_foreach(&l, nest_each); s_list_foreach_arg(&l, nest_each_arg, &c); NEST_CHECK(c.visits == 2 * c.n, "foreach-missed", "a foreach called by the callback of another operation made %u visits to %u objects", c.visits, 2 * c.n); }
		break; }
	case 2: case 3: { /* tree */
		tommy_tree t; unsigned in = 0;
		s_tree_init(&t, nest_cmp);
		for (i = 0; i < c.n; ++i) {
			void* r;
			for (j = 0; j < i && c.o[j].key != c.o[i].key; ++j) ;
			r = s_tree_insert(&t, &c.o[i].n, &c.o[i]);
			NEST_CHECK(r == (void*)&c.o[j], "tree-insert", "an insertion in a tree called by the callback of another operation returned another object");
			in += j == i;
		}
		for (i = 0; i < c.n; ++i) {
			void* r = what == 2 ? s_tree_search(&t, &c.o[i]) : s_tree_search_compare(&t, nest_cmp, &c.o[i]);
			for (j = 0; j < i && c.o[j].key != c.o[i].key; ++j) ;
			NEST_CHECK(r == (void*)&c.o[j], "tree-search", "a search in a tree called by the callback of another operation returned another object");
		}
		s_tree_foreach(&t, nest_each); s_tree_foreach_arg(&t, nest_each_arg, &c);
		NEST_CHECK(c.visits == 2 * in, "foreach-missed", "a foreach called by the callback of another operation made %u visits to %u objects", c.visits, 2 * in);
		for (i = 0; i < c.n; ++i) removed += s_tree_remove(&t, &c.o[i]) != 0;
		NEST_CHECK(removed == in && s_tree_count(&t) == 0, "tree-remove", "removals from a tree called by the callback of another operation took %u of %u objects", removed, in);
		break; }
	case 4: { /* no callbacks */
		tommy_trie_inplace t; tommy_trie_inplace_node* p;
		s_trie_inplace_init(&t);
		for (i = 0; i < c.n; ++i) s_trie_inplace_insert(&t, &c.o[i].t, &c.o[i], (tommy_key_t)(c.o[i].key << (c.n & 15)));
		for (i = 0; i < c.n; ++i) { for (p = s_trie_inplace_bucket(&t, (tommy_key_t)(c.o[i].key << (c.n & 15))); p && p->data != (void*)&c.o[i]; p = p->next) ; NEST_CHECK(p, "trie-search", "a search in a trie called by the callback of another operation did not find an object"); }
		for (i = 0; i < c.n; ++i) removed += s_trie_inplace_remove_existing(&t, &c.o[i].t) == (void*)&c.o[i];
		NEST_CHECK(removed == c.n && s_trie_inplace_count(&t) == 0, "trie-remove", "removals from a trie called by the callback of another operation took %u of %u objects", removed, c.n);
		break; }
#ifdef NEST_HEAP
#define NEST_TABLE(name, type, ...) { type t; \
		__VA_ARGS__; \
		for (i = 0; i < c.n; ++i) s_##name##_insert(&t, &c.o[i].n, &c.o[i], c.o[i].key * 16); \
		for (i = 0; i < c.n; ++i) { c.arg = &c.o[i]; NEST_CHECK(s_##name##_search(&t, nest_search, &c.o[i], c.o[i].key * 16) == (void*)&c.o[i], "hash-search", "a search in a " #name " called by the callback of another operation did not find an object"); } \
		s_##name##_foreach(&t, nest_each); s_##name##_foreach_arg(&t, nest_each_arg, &c); \
		NEST_CHECK(c.visits == 2 * c.n, "foreach-missed", "a foreach called by the callback of another operation made %u visits to %u objects", c.visits, 2 * c.n); \
		for (i = 0; i < c.n; ++i) { c.arg = &c.o[i]; removed += (i & 1 ? s_##name##_remove(&t, nest_search, &c.o[i], c.o[i].key * 16) : s_##name##_remove_existing(&t, &c.o[i].n)) == (void*)&c.o[i]; } \
		NEST_CHECK(removed == c.n && s_##name##_count(&t) == 0, "hash-remove", "removals from a " #name " called by the callback of another operation took %u of %u objects", removed, c.n); \
		s_##name##_done(&t); }
	case 5: NEST_TABLE(hashtable, tommy_hashtable, s_hashtable_init(&t, 16)) break;
	case 6: case 7: NEST_TABLE(hashdyn, tommy_hashdyn, s_hashdyn_init(&t)) break;
	default: NEST_TABLE(hashlin, tommy_hashlin, s_hashlin_init(&t)) break;
#endif
	}
	--nest_depth; nest_cur = up;
#ifdef NEST_THREADS
	++nest_total;
#else
	mon_steps = steps0;
	mon_stat("operations_inside_callbacks", 1); mon_max("max_nesting", nest_depth + 2);
#endif
}
#endif
