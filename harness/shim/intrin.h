/* The intrinsics of the Microsoft compiler, as its documentation defines them: 0 and an unspecified index for an empty
 * mask, else 1 and the index of the bit found. */
#ifndef SHIM_INTRIN_H
#define SHIM_INTRIN_H
static inline unsigned char _BitScanReverse(unsigned long* i, unsigned m) { int k; if (!m) { *i = 0xdeadbeef; return 0; } for (k = 31; !(m >> k & 1); --k); *i = (unsigned long)k; return 1; }
static inline unsigned char _BitScanForward(unsigned long* i, unsigned m) { int k; if (!m) { *i = 0xdeadbeef; return 0; } for (k = 0; !(m >> k & 1); ++k); *i = (unsigned long)k; return 1; }
static inline unsigned char _BitScanReverse64(unsigned long* i, unsigned long long m) { int k; if (!m) { *i = 0xdeadbeef; return 0; } for (k = 63; !(m >> k & 1); --k); *i = (unsigned long)k; return 1; }
static inline unsigned char _BitScanForward64(unsigned long* i, unsigned long long m) { int k; if (!m) { *i = 0xdeadbeef; return 0; } for (k = 0; !(m >> k & 1); ++k); *i = (unsigned long)k; return 1; }
#endif
