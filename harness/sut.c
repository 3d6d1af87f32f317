/* The library itself, compiled from the working tree in any of the build configurations.
 * System headers come first, so that the library can be given other macros without affecting them. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <assert.h>
#include <limits.h>
#include <stdbool.h>
#define SUT_IMPL
#include "sut.h"

#ifndef MON_RAWHEAP
/* direct use of the C heap by the library is reported */
#define malloc(a) (mon_bypass("malloc"), mon_malloc(a))
#define calloc(a, b) (mon_bypass("calloc"), mon_calloc(a, b))
#define realloc(a, b) (mon_bypass("realloc"), mon_realloc(a, b))
#define free(a) (mon_bypass("free"), mon_free(a))
#endif

#if !defined(MON_COUNT_MEM) && !defined(MON_RAWHEAP)
/* clearing gigabytes just obtained does not need to touch them */
#define memset(a, b, c) mon_memset(a, b, c)
#endif

#ifdef SUT_PORTABLE
/* what an unknown compiler on an unknown cpu sees */
#undef __GNUC__
#undef __x86_64__
#undef __i386__
#undef _X86_
#undef __STDC_VERSION__
#define __STDC_VERSION__ 0
#endif

#ifdef SUT_MSVC
/* the branches for the Microsoft compiler, with its types and intrinsics emulated */
#undef __GNUC__
#undef __x86_64__
#undef __i386__
#undef __STDC_VERSION__
#define __STDC_VERSION__ 0
#define _MSC_VER 1900
#define _int64 long long
#define _int64_t long long
#if UINTPTR_MAX > 0xffffffffu
#define _WIN64 1
#define _M_X64 1
#else
#define _M_IX86 1
#endif
#endif

#include "tommy.h"
#include "tommy.c"

#include "sut_api.h"
#ifdef __cplusplus
extern "C" {
#endif
#define R(type, name, params, args) type s_##name params { return tommy_##name args; }
#define V(name, params, args) void s_##name params { tommy_##name args; }
#include "sut.def"
#undef R
#undef V
#if TOMMY_SIZE_BIT == 64
tommy_uint_t s_ilog2_u64(uint64_t v) { return tommy_ilog2_u64(v); }
tommy_uint_t s_ctz_u64(uint64_t v) { return tommy_ctz_u64(v); }
#else
tommy_uint_t s_ilog2_u64(uint64_t v) { (void)v; return 0; }
tommy_uint_t s_ctz_u64(uint64_t v) { (void)v; return 0; }
#endif
tommy_uint_t s_ilog2(tommy_size_t v) { return tommy_ilog2(v); }
tommy_uint_t s_ctz(tommy_size_t v) { return tommy_ctz(v); }
tommy_size_t s_roundup_pow2(tommy_size_t v) { return (tommy_size_t)tommy_roundup_pow2(v); }
#ifdef TOMMY_ILOG2
unsigned s_ILOG2(unsigned v) { return TOMMY_ILOG2(v); }
#else
unsigned s_ILOG2(unsigned v) { unsigned i = 0; while (v >>= 1) ++i; return i; }
#endif
int s_size_bit(void) { return TOMMY_SIZE_BIT; }
#ifdef __cplusplus
}
#endif
