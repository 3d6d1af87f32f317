/* Hash functions and bit primitives against independent references; memory the hash functions read. */
#include "sut.h"
#include "sut_api.h"
#include <sys/mman.h>
#include <unistd.h>
#ifdef MON_ASAN
#include <sanitizer/asan_interface.h>
#endif
#ifdef MON_VALGRIND
#include <valgrind/memcheck.h>
#endif

static const char* has(const char* tok) { return strstr(mon_variant, tok); }

/* ------------------------------------------------------------------ references, byte by byte from the published description */
static uint32_t rot(uint32_t x, unsigned k) { return (x << k) | (x >> (32 - k)); }
static void rmix(uint32_t s[3])
{
	static const unsigned r[6] = { 4, 6, 8, 16, 19, 4 }; unsigned i;
	for (i = 0; i < 6; ++i) { uint32_t* a = &s[i % 3]; uint32_t* b = &s[(i + 1) % 3]; uint32_t* c = &s[(i + 2) % 3]; *a -= *c; *a ^= rot(*c, r[i]); *c += *b; }
}
static void rfinal(uint32_t s[3])
{
	static const unsigned r[7] = { 14, 11, 25, 16, 4, 14, 24 }; unsigned i;
	for (i = 0; i < 7; ++i) { uint32_t* x = &s[(i + 2) % 3]; uint32_t y = s[(i + 1) % 3]; *x ^= y; *x -= rot(y, r[i]); }
}
/* hashlittle2: (*pc, *pb) in and out */
static void ref2(const unsigned char* k, uint64_t len, uint32_t* pc, uint32_t* pb)
{
	uint32_t s[3]; uint64_t i, left = len;
	s[0] = s[1] = s[2] = 0xdeadbeef + (uint32_t)len + *pc;
	s[2] += *pb;
	if (len == 0) { *pc = s[2]; *pb = s[1]; return; }
	while (left > 12) { for (i = 0; i < 12; ++i) s[i / 4] += (uint32_t)k[i] << (8 * (i & 3)); rmix(s); k += 12; left -= 12; }
	for (i = 0; i < left; ++i) s[i / 4] += (uint32_t)k[i] << (8 * (i & 3));
	rfinal(s);
	*pc = s[2]; *pb = s[1];
}
/* hashlittle */
static uint32_t ref1(const unsigned char* k, uint64_t len, uint32_t init) { uint32_t b = 0; ref2(k, len, &init, &b); return init; }
static uint32_t refstr(const unsigned char* k, uint32_t init)
{
	uint32_t s[3]; unsigned i;
	s[0] = s[1] = s[2] = 0xdeadbeef + init;
	for (i = 0; *k; ++k) { s[i / 4] += (uint32_t)*k << (8 * (i & 3)); if (++i == 12) { rmix(s); i = 0; } }
	rfinal(s);
	return s[2];
}
static uint32_t rint32(uint32_t a) { a -= a << 6; a ^= a >> 17; a -= a << 9; a ^= a << 4; a -= a << 3; a ^= a << 10; a ^= a >> 15; return a; }
static uint64_t rint64(uint64_t k)
{
	k = (k << 21) - k - 1; k ^= k >> 24; k *= 265; k ^= k >> 14; k *= 21; k ^= k >> 28; k *= 0x80000001ULL; return k;
}
static uint32_t inv_odd32(uint32_t a) { uint32_t x = a; int i; for (i = 0; i < 5; ++i) x *= 2 - a * x; return x; }
static uint64_t inv_odd64(uint64_t a) { uint64_t x = a; int i; for (i = 0; i < 6; ++i) x *= 2 - a * x; return x; }
static uint32_t unshr32(uint32_t v, unsigned s) { uint32_t r = v; unsigned i; for (i = s; i < 32; i += s) r = v ^ (r >> s); return r; }
static uint32_t unshl32(uint32_t v, unsigned s) { uint32_t r = v; unsigned i; for (i = s; i < 32; i += s) r = v ^ (r << s); return r; }
static uint64_t unshr64(uint64_t v, unsigned s) { uint64_t r = v; unsigned i; for (i = s; i < 64; i += s) r = v ^ (r >> s); return r; }
static uint32_t i3, i9, i6;
static uint32_t unint32(uint32_t a)
{
	a = unshr32(a, 15); a = unshl32(a, 10); a *= i3; a = unshl32(a, 4); a *= i9; a = unshr32(a, 17); a *= i6; return a;
}
static uint64_t unint64(uint64_t k)
{
	k *= inv_odd64(0x80000001ULL); k = unshr64(k, 28); k *= inv_odd64(21); k = unshr64(k, 14); k *= inv_odd64(265); k = unshr64(k, 24);
	return (k + 1) * inv_odd64(((uint64_t)1 << 21) - 1);
}
static void selftest(void)
{
	static const char* t = "Four score and seven years ago"; uint32_t b, c; uint64_t i;
	b = 0; c = 0; ref2((const unsigned char*)"", 0, &c, &b); REQUIRE(c == 0xdeadbeef && b == 0xdeadbeef);
	b = 0xdeadbeef; c = 0; ref2((const unsigned char*)"", 0, &c, &b); REQUIRE(c == 0xbd5b7dde && b == 0xdeadbeef);
	b = 0xdeadbeef; c = 0xdeadbeef; ref2((const unsigned char*)"", 0, &c, &b); REQUIRE(c == 0x9c093ccd && b == 0xbd5b7dde);
	b = 0; c = 0; ref2((const unsigned char*)t, 30, &c, &b); REQUIRE(c == 0x17770551 && b == 0xce7226e6);
	b = 1; c = 0; ref2((const unsigned char*)t, 30, &c, &b); REQUIRE(c == 0xe3607cae && b == 0xbd371de4);
	b = 0; c = 1; ref2((const unsigned char*)t, 30, &c, &b); REQUIRE(c == 0xcd628161 && b == 0x6cbea4b3);
	i6 = inv_odd32((uint32_t)1 - (1u << 6)); i9 = inv_odd32((uint32_t)1 - (1u << 9)); i3 = inv_odd32((uint32_t)1 - (1u << 3));
	for (i = 0; i < 1000; ++i) { uint64_t v = mix64(i, 99); REQUIRE(unint32(rint32((uint32_t)v)) == (uint32_t)v); REQUIRE(unint64(rint64(v)) == v); }
}

/* ------------------------------------------------------------------ checks of one key */
static uint64_t st0;
static void cost_check(const char* what, uint64_t len)
{
	st0 = mon_steps - st0; mon_op_end();
	if (!mon_have_steps) return;
	mon_stat("cost_checks", 1); if (len > 100) mon_max("max_steps_per_100_bytes", st0 * 100 / len);
	CHECK(O_COST, st0 <= 100 + 8 * len, "hash-not-linear", "%s of %llu bytes executed %llu basic blocks", what, (unsigned long long)len, (unsigned long long)st0);
}
static void check_key(const unsigned char* k, uint64_t len, uint64_t init, const char* what)
{
	uint32_t c, b, w; uint64_t d;
	mon_op("hash_u32", len, init, (uint64_t)((uintptr_t)k & 15));
	mon_budget((uint64_t)1 << 60); st0 = mon_steps; c = s_hash_u32((uint32_t)init, k, (tommy_size_t)len); cost_check("hash_u32", len);
	w = ref1(k, len, (uint32_t)init);
	CHECK(O_MEM, c == w, "hash_u32-value", "hash_u32 of %llu bytes (init 0x%llx, %s) is %08x instead of %08x", (unsigned long long)len, (unsigned long long)init, what, c, w);
	mon_res(c);
	mon_op("hash_u64", len, init, (uint64_t)((uintptr_t)k & 15));
	mon_budget((uint64_t)1 << 60); st0 = mon_steps; d = s_hash_u64(init, k, (tommy_size_t)len); cost_check("hash_u64", len);
	c = (uint32_t)init; b = (uint32_t)(init >> 32);
	ref2(k, len, &c, &b);
	CHECK(O_MEM, d == (c | (uint64_t)b << 32), "hash_u64-value", "hash_u64 of %llu bytes (init 0x%llx, %s) is %016llx instead of %016llx", (unsigned long long)len, (unsigned long long)init, what, (unsigned long long)d, (unsigned long long)(c | (uint64_t)b << 32));
	mon_res(d);
	mon_stat("keys_hashed", 2); mon_stat("key_bytes", 2 * len);
}
static void check_str(const unsigned char* k, uint64_t init, const char* what)
{
	uint32_t c, w;
	mon_op("strhash_u32", (uint64_t)strlen((const char*)k), init, (uint64_t)((uintptr_t)k & 15));
	mon_budget((uint64_t)1 << 60); st0 = mon_steps; c = s_strhash_u32(init, k); cost_check("strhash_u32", strlen((const char*)k));
	w = refstr(k, (uint32_t)init);
	CHECK(O_MEM, c == w, "strhash_u32-value", "strhash_u32 of a string of %zu chars (init 0x%llx, %s) is %08x instead of %08x", strlen((const char*)k), (unsigned long long)init, what, c, w);
	mon_res(c);
	mon_stat("strings_hashed", 1);
}
static void fill_key(unsigned char* p, uint64_t n, int kind)
{
	uint64_t i;
	for (i = 0; i < n; ++i) switch (kind) {
	case 0: p[i] = (unsigned char)rnd(); break;
	case 1: p[i] = 0xff; break;
	case 2: p[i] = 0; break;
	case 3: p[i] = (unsigned char)(0x80 + (rnd() & 1)); break;
	case 4: p[i] = (unsigned char)('a' + rndn(26)); break;
	case 5: p[i] = chance(10) ? 0 : chance(50) ? 1 : 0x80; break;
	/* words that are constants of the sources, a repeated unit, runs of equal bytes */
	case 6: { uint64_t w = mon_word(); unsigned k; if (chance(30)) w = __builtin_bswap32((uint32_t)w); for (k = 0; k < 4 && i < n; ++k) p[i++] = (unsigned char)(w >> (8 * k)); --i; break; }
	case 7: p[i] = i >= 12 && !chance(2) ? p[i - 12] : (unsigned char)rnd(); break;
	case 8: p[i] = i >= 4 && !chance(2) ? p[i - 4] : (unsigned char)rnd(); break;
	default: p[i] = i && !chance(10) ? p[i - 1] : (unsigned char)rnd();
	}
}
static void fill_str(unsigned char* p, uint64_t n, int kind)
{
	uint64_t i;
	fill_key(p, n, kind);
	for (i = 0; i < n; ++i) if (!p[i]) p[i] = kind == 2 ? 1 : 0x80;
	p[n] = 0;
}
static uint64_t rinit(void) { return chance(20) ? mon_word() : chance(25) ? 0 : chance(20) ? ~(uint64_t)0 : chance(20) ? 0xffffffff : rnd(); }

/* lengths around multiples of powers of two */
static uint64_t round_len(uint64_t max)
{
	uint64_t b = (uint64_t)4 << rndn(30), n;
	while (b > max) b /= 2;
	n = b * (1 + rndn(max / b < 8 ? max / b : chance(50) ? 8 : max / b)) + (chance(50) ? 0 : chance(50) ? rndn(5) : rndn(25));
	if (n >= 2 && chance(25)) n -= 1 + rndn(2);
	return n > max ? max : n;
}
static int case_values(long index)
{
	unsigned char* raw = (unsigned char*)malloc(70000 + 64); uint64_t n, len; unsigned off; int big = index % 32 == 31;
	REQUIRE(raw);
	for (n = 0; n < (big ? 60 : 400); ++n) {
		len = big ? (chance(50) ? round_len(66000) : chance(20) ? mon_size(65000) : rndlog(65000)) : chance(10) ? mon_size(4000) : chance(70) ? rndn(64) : chance(15) ? round_len(9000) : rndlog(700);
		off = (unsigned)rndn(32);
		fill_key(raw, 70000 < len + 64 + 64 ? 70000 : len + 128, 0); /* the bytes around differ every time */
		fill_key(raw + off, len, (int)rndn(10));
		check_key(raw + off, len, rinit(), "in memory");
		fill_str(raw + off, len, (int)rndn(10));
		if (len + 20 < 70000) fill_key(raw + off + len + 1, 20, (int)rndn(3));
		check_str(raw + off, rinit(), "in memory");
	}
	free(raw);
	return 1;
}
/* a key alone between two inaccessible pages, in memory that cannot be written */
static int case_guard(long index)
{
	size_t pg = (size_t)sysconf(_SC_PAGESIZE); unsigned char* m; unsigned char* p; uint64_t len; unsigned rep;
	m = (unsigned char*)mmap(0, 4 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	REQUIRE(m != (unsigned char*)MAP_FAILED);
	for (rep = 0; rep < 130; ++rep) {
		int atend = (int)(rndn(4) != 0);
		len = index < 40 ? (uint64_t)rep : chance(15) ? mon_size(2 * pg) : chance(50) ? rndn(140) : rndn(2 * pg);
		REQUIRE(mprotect(m + pg, 2 * pg, PROT_READ | PROT_WRITE) == 0);
		memset(m + pg, rep & 1 ? 0xff : 0, 2 * pg);
		p = atend ? m + 3 * pg - len : m + pg + (index & 1 ? rndn(16) : 0);
		if (p + len > m + 3 * pg) len = (uint64_t)(m + 3 * pg - p);
		fill_key(p, len, (int)rndn(10));
		REQUIRE(mprotect(m + pg, 2 * pg, PROT_READ) == 0);
		check_key(p, len, rinit(), atend ? "at the end of accessible memory" : "at the start of accessible memory");
		REQUIRE(mprotect(m + pg, 2 * pg, PROT_READ | PROT_WRITE) == 0);
		if (len == 2 * pg) --len;
		p = atend ? m + 3 * pg - len - 1 : m + pg;
		fill_str(p, len, (int)rndn(10));
		REQUIRE(mprotect(m + pg, 2 * pg, PROT_READ) == 0);
		check_str(p, rinit(), atend ? "at the end of accessible memory" : "at the start of accessible memory");
		mon_stat("guarded_keys", 3);
	}
	munmap(m, 4 * pg);
	return 1;
}
/* a key alone in its heap block, any alignment of its end: for ASan, and valgrind (exact on both sides) */
static int case_exact(long index)
{
	unsigned rep; uint64_t len;
	for (rep = 0; rep < 200; ++rep) {
		unsigned off = (unsigned)rndn(16); unsigned char* b; size_t n;
		len = index < 20 ? rep : chance(20) ? mon_size(600) : rndlog(300);
		n = off + (size_t)len;
		b = (unsigned char*)malloc(n ? n : 1); REQUIRE(b);
		fill_key(b, n, (int)rndn(10));
#ifdef MON_VALGRIND
		VALGRIND_MAKE_MEM_NOACCESS(b, off);
		if (!n) VALGRIND_MAKE_MEM_NOACCESS(b, 1);
#endif
#ifdef MON_ASAN
		if (off >= 8) __asan_poison_memory_region(b, 8);
		if (!n) __asan_poison_memory_region(b, 1);
#endif
		check_key(b + off, len, rinit(), "alone in its block");
#ifdef MON_VALGRIND
		VALGRIND_MAKE_MEM_UNDEFINED(b, off);
#endif
#ifdef MON_ASAN
		__asan_unpoison_memory_region(b, n ? n : 1);
#endif
		free(b);
		b = (unsigned char*)malloc(n + 1); REQUIRE(b);
		fill_key(b, off, 0);
		fill_str(b + off, len, (int)rndn(10));
#ifdef MON_VALGRIND
		VALGRIND_MAKE_MEM_NOACCESS(b, off);
#endif
#ifdef MON_ASAN
		if (off >= 8) __asan_poison_memory_region(b, 8);
#endif
		check_str(b + off, rinit(), "alone in its block");
#ifdef MON_VALGRIND
		VALGRIND_MAKE_MEM_UNDEFINED(b, off);
#endif
#ifdef MON_ASAN
		__asan_unpoison_memory_region(b, n + 1);
#endif
		free(b);
		mon_stat("exact_blocks", 2);
	}
	return 1;
}
/* a string whose length is known, by words */
static uint32_t refstr_len(const unsigned char* k, uint64_t len, uint32_t init)
{
	uint32_t s[3], w[3]; unsigned i;
	s[0] = s[1] = s[2] = 0xdeadbeef + init;
	for (; len >= 12; len -= 12, k += 12) { memcpy(w, k, 12); s[0] += w[0]; s[1] += w[1]; s[2] += w[2]; rmix(s); }
	for (i = 0; i < len; ++i) s[i / 4] += (uint32_t)k[i] << (8 * (i & 3));
	rfinal(s);
	return s[2];
}
/* keys and strings of up to more than 4 GiB: a block of 2 MiB mapped again and again, the last bytes of their own */
#define REP ((size_t)2 << 20)
static int case_long(long index)
{
	static const uint64_t lens[] = { 0x100000000ULL + 13, 0x100000000ULL + 21, 0x80000000ULL + 5, 0x100000000ULL, 0xffffffffULL, 0x180000000ULL + 7, 0x100000000ULL + 12, 0x7fffffffULL };
	uint64_t len, i; unsigned char* m; size_t map, room = 2 * 4096; int fd, medium = strstr(mon_variant, "medium") != 0, isstr; uint32_t c, b, w; uint64_t init = rinit();
	unsigned char* blk = (unsigned char*)malloc(REP);
	REQUIRE(blk);
	len = medium ? 1000 + (chance(50) ? round_len((uint64_t)1 << 25) : rndlog((uint64_t)1 << 25)) : lens[index % 8];
	isstr = medium ? (int)(rnd() & 1) : (index % 8 == 1 || index % 8 == 2 || index % 8 == 5);
	if (sizeof(size_t) < 8 && !medium) { len = 0x30000000ULL + rndn(100); isstr = (int)(index & 1); }
	map = ((size_t)len + room + REP) & ~(REP - 1);
	fd = memfd_create("key", 0);
	if (isstr) fill_str(blk, REP - 1, 0); else fill_key(blk, REP, 0);
	if (isstr) blk[REP - 1] = 'x';
	for (i = 0; isstr && i < REP; ++i) if (!blk[i]) blk[i] = 0x80;
	if (fd < 0 || write(fd, blk, REP) != (ssize_t)REP) { mon_stat("long_keys_skipped", 1); free(blk); return 0; }
	m = (unsigned char*)mmap(0, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == (unsigned char*)MAP_FAILED) { mon_stat("long_keys_skipped", 1); close(fd); free(blk); return 0; }
	for (i = 0; i < map; i += REP) REQUIRE(mmap(m + i, REP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) == m + i);
	close(fd);
	for (i = 0; i < 200; ++i) m[rndn(len)] = (unsigned char)(1 + rndn(255));
	for (i = 0; i < 64; ++i) m[len - 64 + i] = (unsigned char)(1 + rndn(255));
	if (isstr) {
		m[len] = 0;
		mon_op("strhash_u32", len, init, 0); mon_budget((uint64_t)1 << 60); st0 = mon_steps; c = s_strhash_u32(init, m); mon_res(c); cost_check("strhash_u32", len);
		mon_op("reference", len, init, 0);
		w = refstr_len(m, len, (uint32_t)init);
		CHECK(O_MEM, c == w, "strhash_u32-value", "strhash_u32 of a string of %llu chars is %08x instead of %08x", (unsigned long long)len, c, w);
		mon_stat("long_strings", 1);
	} else {
		uint64_t d; unsigned char* k = m + (medium ? rndn(9) : 0);
		mon_op("hash_u64", len, init, 0); mon_budget((uint64_t)1 << 60); st0 = mon_steps; d = s_hash_u64(init, k, (tommy_size_t)len); mon_res(d); cost_check("hash_u64", len);
		mon_op("hash_u32", len, init, 0); mon_budget((uint64_t)1 << 60); st0 = mon_steps; w = s_hash_u32((uint32_t)init, k, (tommy_size_t)len); mon_res(w); cost_check("hash_u32", len);
		mon_op("reference", len, init, 0);
		c = (uint32_t)init; b = (uint32_t)(init >> 32); ref2(k, len, &c, &b);
		CHECK(O_MEM, d == (c | (uint64_t)b << 32), "hash_u64-value", "hash_u64 of %llu bytes is %016llx instead of %016llx", (unsigned long long)len, (unsigned long long)d, (unsigned long long)(c | (uint64_t)b << 32));
		/* hashlittle is hashlittle2 with a second initial value of 0 */
		mon_op("reference", len, init, 0);
		c = ref1(k, len, (uint32_t)init);
		CHECK(O_MEM, c == w, "hash_u32-value", "hash_u32 of %llu bytes is %08x instead of %08x", (unsigned long long)len, w, c);
		mon_stat("long_keys", 1);
	}
	mon_stat("key_bytes", len);
	mon_max("max_key_length", len);
	munmap(m, map); free(blk);
	return 1;
}

/* ------------------------------------------------------------------ integers, in slices of 2^24 */
static int case_int32(long index)
{
	uint64_t v, lo = (uint64_t)(index & 255) << 24, hi = lo + (1 << 24); uint32_t acc = 0;
	mon_op("inthash_u32", lo, hi, 0);
	for (v = lo; v < hi; ++v) {
		uint32_t f = s_inthash_u32((uint32_t)v);
		if (f != rint32((uint32_t)v)) mon_report(O_MEM, "inthash_u32-value", "inthash_u32(0x%08llx) is %08x instead of %08x", (unsigned long long)v, f, rint32((uint32_t)v));
		if (unint32(f) != (uint32_t)v) mon_report(O_MEM, "inthash_u32-collision", "inthash_u32(0x%08llx) and inthash_u32(0x%08x) are both %08x", (unsigned long long)v, unint32(f), f);
		acc = acc * 31 + f;
	}
	mon_res(acc);
	mon_stat("keys_enumerated", hi - lo);
	return 1;
}
static void one64(uint64_t v)
{
	uint64_t f = s_inthash_u64(v);
	if (f != rint64(v)) mon_report(O_MEM, "inthash_u64-value", "inthash_u64(0x%016llx) is %016llx instead of %016llx", (unsigned long long)v, (unsigned long long)f, (unsigned long long)rint64(v));
	if (unint64(f) != v) mon_report(O_MEM, "inthash_u64-collision", "inthash_u64(0x%016llx) and inthash_u64(0x%016llx) collide", (unsigned long long)v, (unsigned long long)unint64(f));
	mon_sig = mon_sig * 31 + f;
}
static int case_int64(long index)
{
	uint64_t n = mon_thorough ? 8000000 : 1000000, i; unsigned a, b, c;
	mon_op("inthash_u64", (uint64_t)index, n, 0);
	for (i = 0; i < n; ++i) { uint64_t v = rnd(); switch (i & 7) { case 0: v &= 0xffffffff; break; case 1: v <<= 32; break; case 2: v &= rnd() & rnd(); break; case 3: v |= rnd() | rnd(); break; } one64(v); }
	for (i = 0; i < n / 8; ++i) { uint64_t v = mon_word(); one64(v); one64(v ^ mon_word()); }
	/* what the function gives for special results and intermediate values: zero, ones, constants */
	for (i = 0; i < 2000; ++i) one64(unint64(mon_word()));
	/* every word of at most three bits, its complement and its neighbours */
	if (index < 64) { a = (unsigned)index; for (b = 0; b < 64; ++b) for (c = 0; c < 64; ++c) { uint64_t v = (uint64_t)1 << a | (uint64_t)1 << b | (uint64_t)1 << c; one64(v); one64(~v); one64(v - 1); one64(v + 1); one64(0 - v); } n += 64 * 64 * 5; }
	mon_res(n);
	mon_stat("keys_sampled", n);
	return 1;
}
/* ------------------------------------------------------------------ bit primitives */
static unsigned r_ilog(uint64_t v) { unsigned r = 0; while (v > 1) { v /= 2; ++r; } return r; }
static unsigned r_ctz(uint64_t v) { unsigned r = 0; while (v % 2 == 0) { v /= 2; ++r; } return r; }
static int case_bits32(long index)
{
	uint64_t v, lo = (uint64_t)(index & 255) << 24, hi = lo + (1 << 24); uint64_t top; unsigned lg = 0; uint32_t acc = 0; uint64_t p2;
	mon_op("bits_u32", lo, hi, 0);
	lg = lo ? r_ilog(lo) : 0; top = (uint64_t)2 << lg; p2 = 1; while (p2 < lo) p2 *= 2;
	for (v = lo; v < hi; ++v) {
		uint32_t x = (uint32_t)v; unsigned g; int z;
		while (v >= top) { top *= 2; ++lg; }
		while (p2 < v) p2 *= 2;
		z = (x & 0xff) == 0 || (x & 0xff00) == 0 || (x & 0xff0000) == 0 || (x & 0xff000000) == 0;
		if (s_haszero_u32(x) != z) mon_report(O_MEM, "haszero_u32-value", "haszero_u32(0x%08x) is %d", x, s_haszero_u32(x));
		if (!v) continue;
		g = s_ilog2_u32(x);
		if (g != lg) mon_report(O_MEM, "ilog2_u32-value", "ilog2_u32(0x%08x) is %u instead of %u", x, g, lg);
		g = s_ctz_u32(x);
		if (g >= 32 || (x >> g) % 2 == 0 || (x & (((uint32_t)1 << g) - 1))) mon_report(O_MEM, "ctz_u32-value", "ctz_u32(0x%08x) is %u", x, g);
		acc = acc * 31 + g;
		if (v <= 0x80000000u && s_roundup_pow2_u32(x) != (uint32_t)p2) mon_report(O_MEM, "roundup_pow2_u32-value", "roundup_pow2_u32(0x%08x) is 0x%08x", x, s_roundup_pow2_u32(x));
		if (sizeof(void*) < 8 || (v & 15) == 0) {
			if (s_ilog2((tommy_size_t)v) != lg) mon_report(O_MEM, "ilog2-value", "ilog2(0x%08x) is %u instead of %u", x, s_ilog2((tommy_size_t)v), lg);
			if (s_ctz((tommy_size_t)v) != g) mon_report(O_MEM, "ctz-value", "ctz(0x%08x) is %u instead of %u", x, s_ctz((tommy_size_t)v), g);
			if (v <= 0x80000000u && s_roundup_pow2((tommy_size_t)v) != (tommy_size_t)p2) mon_report(O_MEM, "roundup_pow2-value", "roundup_pow2(0x%08x) is wrong", x);
		}
	}
	mon_res(acc);
	mon_stat("words_enumerated", hi - lo);
	return 1;
}
static void bits64(uint64_t v)
{
	uint64_t p = 1; uint32_t x = (uint32_t)v;
	if (x) {
		uint32_t q = 1;
		if (x <= 0x80000000u) { while (q < x) q *= 2; CHECK(O_MEM, s_roundup_pow2_u32(x) == q, "roundup_pow2_u32-value", "roundup_pow2_u32(0x%08x) is 0x%08x", x, s_roundup_pow2_u32(x)); }
		CHECK(O_MEM, s_ilog2_u32(x) == r_ilog(x), "ilog2_u32-value", "ilog2_u32(0x%08x) is %u", x, s_ilog2_u32(x));
		CHECK(O_MEM, s_ctz_u32(x) == r_ctz(x), "ctz_u32-value", "ctz_u32(0x%08x) is %u", x, s_ctz_u32(x));
	}
	CHECK(O_MEM, s_haszero_u32(x) == (!(x & 0xff) || !(x & 0xff00) || !(x & 0xff0000) || !(x & 0xff000000)), "haszero_u32-value", "haszero_u32(0x%08x) is %d", x, s_haszero_u32(x));
	if ((tommy_size_t)v) {
		tommy_size_t z = (tommy_size_t)v;
		CHECK(O_MEM, s_ilog2(z) == r_ilog(z), "ilog2-value", "ilog2(0x%llx) is %u", (unsigned long long)z, s_ilog2(z));
		CHECK(O_MEM, s_ctz(z) == r_ctz(z), "ctz-value", "ctz(0x%llx) is %u", (unsigned long long)z, s_ctz(z));
		if (z <= (tommy_size_t)1 << (s_size_bit() - 1)) { tommy_size_t q = 1; while (q < z) q *= 2; CHECK(O_MEM, s_roundup_pow2(z) == q, "roundup_pow2-value", "roundup_pow2(0x%llx) is wrong", (unsigned long long)z); }
	}
	if (!v) return;
	if (v <= (uint64_t)1 << 63) { while (p < v) p *= 2; CHECK(O_MEM, s_roundup_pow2_u64(v) == p, "roundup_pow2_u64-value", "roundup_pow2_u64(0x%016llx) is 0x%016llx", (unsigned long long)v, (unsigned long long)s_roundup_pow2_u64(v)); }
	if (s_size_bit() == 64) {
		CHECK(O_MEM, s_ilog2_u64(v) == r_ilog(v), "ilog2_u64-value", "ilog2_u64(0x%016llx) is %u instead of %u", (unsigned long long)v, s_ilog2_u64(v), r_ilog(v));
		CHECK(O_MEM, s_ctz_u64(v) == r_ctz(v), "ctz_u64-value", "ctz_u64(0x%016llx) is %u instead of %u", (unsigned long long)v, s_ctz_u64(v), r_ctz(v));
	}
	mon_sig = mon_sig * 31 + p;
}
static int case_bits64(long index)
{
	uint64_t n = mon_thorough ? 2000000 : 250000, i; unsigned a = (unsigned)index & 63, b, c;
	mon_op("bits_u64", (uint64_t)index, n, 0);
	for (i = 0; i < n; ++i) { uint64_t v = rnd(); switch (i & 3) { case 0: v >>= rndn(64); break; case 1: v <<= rndn(64); break; case 2: v = (v >> rndn(64)) << rndn(64); break; } bits64(v); }
	for (i = 0; i < n / 8; ++i) { uint64_t v = mon_word(); bits64(v); bits64(v ^ mon_word()); bits64((v & 0xffffffff) | v << 32); }
	for (i = 0; i < 70000; ++i) bits64(i);
	for (b = 0; b < 64; ++b) for (c = 0; c < 64; ++c) { uint64_t v = (uint64_t)1 << a | (uint64_t)1 << b | (uint64_t)1 << c; bits64(v); bits64(~v); bits64(v - 1); bits64(v + 1); bits64(((uint64_t)1 << a) - ((uint64_t)1 << b)); }
	/* documented for the exact powers of two up to 256 only */
	for (b = 1; b <= 256; b *= 2) CHECK(O_MEM, s_ILOG2((unsigned)b) == r_ilog((unsigned)b), "ILOG2-value", "TOMMY_ILOG2(%u) is %u instead of %u", (unsigned)b, s_ILOG2((unsigned)b), (unsigned)r_ilog((unsigned)b));
	mon_res(n);
	mon_stat("words_sampled", n + 64 * 64 * 5);
	return 1;
}
static int run_case(long index)
{
	static int tested; int r;
	if (!tested) { selftest(); tested = 1; }
	if (has("guard")) { r = case_guard(index); mon_sample("keys and strings of 0..129 and random bytes between inaccessible pages, read only"); }
	else if (has("exact")) { r = case_exact(index); mon_sample("keys and strings of 0..199 and random bytes at 16 alignments alone in their block"); }
	else if (has("long") || has("medium")) { r = case_long(index); mon_sample("keys and strings of megabytes, and of over 4 GiB"); }
	else if (has("int32")) { r = case_int32(index); mon_sample("inthash_u32 on [0x%lx000000, 0x%lx000000)", index & 255, (index & 255) + 1); }
	else if (has("int64")) { r = case_int64(index); mon_sample("inthash_u64 on random, sparse, dense and three-bit words"); }
	else if (has("bits32")) { r = case_bits32(index); mon_sample("bit primitives on [0x%lx000000, 0x%lx000000)", index & 255, (index & 255) + 1); }
	else if (has("bits64")) { r = case_bits64(index); mon_sample("64 bits primitives on random and three-bit words"); }
	else { r = case_values(index); mon_sample("keys and strings of random length, content, alignment and initialization value"); }
	return r;
}
int main(int argc, char** argv) { return mon_main(argc, argv, "h_hash", run_case); }
