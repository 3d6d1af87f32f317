#ifdef __cplusplus
extern "C" {
#endif
#define R(type, name, params, args) type s_##name params;
#define V(name, params, args) void s_##name params;
#include "sut.def"
#undef R
#undef V
tommy_uint_t s_ilog2_u64(uint64_t v);
tommy_uint_t s_ctz_u64(uint64_t v);
tommy_uint_t s_ilog2(tommy_size_t v);
tommy_uint_t s_ctz(tommy_size_t v);
tommy_size_t s_roundup_pow2(tommy_size_t v);
unsigned s_ILOG2(unsigned v);
int s_size_bit(void);
#ifdef __cplusplus
}
#endif
