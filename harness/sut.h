/* Functions of the library as seen by the harnesses: s_xxx() calls tommy_xxx() from the (instrumented)
 * translation unit that contains the library, inline functions included. */
#ifndef SUT_H
#define SUT_H
#include "mon.h"
#ifdef MON_RAWHEAP
#else
#define tommy_malloc mon_malloc
#define tommy_calloc mon_calloc
#define tommy_realloc mon_realloc
#define tommy_free mon_free
#endif
#ifndef SUT_IMPL
#include "tommy.h"
#endif
#endif
