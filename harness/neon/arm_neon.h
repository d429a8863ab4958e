// A portable stand-in for the NEON intrinsics that the library uses (and their usual relatives), so that the NEON
// scanners can be compiled and executed on this machine.  Lane order is little endian, as on the targets.
#pragma once
#include <cstdint>
#include <cstring>
#define NEON_T(n, t, c) struct n { t v[c]; }
NEON_T(uint8x16_t, uint8_t, 16);
NEON_T(uint8x8_t, uint8_t, 8);
NEON_T(int8x16_t, int8_t, 16);
NEON_T(uint16x8_t, uint16_t, 8);
NEON_T(uint32x4_t, uint32_t, 4);
NEON_T(uint64x2_t, uint64_t, 2);
NEON_T(uint64x1_t, uint64_t, 1);
#undef NEON_T
template <typename R, typename S>
inline R neon_cast(const S &s) { R r; static_assert(sizeof r == sizeof s, "size"); std::memcpy(&r, &s, sizeof r); return r; }
template <typename F>
inline uint8x16_t neon_map2(uint8x16_t a, uint8x16_t b, F f) { for (int i = 0; i < 16; i++) a.v[i] = uint8_t(f(a.v[i], b.v[i])); return a; }
inline uint8x16_t vdupq_n_u8(uint8_t x) { uint8x16_t r; std::memset(&r, x, 16); return r; }
inline uint8x16_t vmovq_n_u8(uint8_t x) { return vdupq_n_u8(x); }
inline uint8x16_t vld1q_u8(const uint8_t *p) { uint8x16_t r; for (int i = 0; i < 16; i++) r.v[i] = p[i]; return r; }
inline void vst1q_u8(uint8_t *p, uint8x16_t a) { for (int i = 0; i < 16; i++) p[i] = a.v[i]; }
inline void vst1q_u32(uint32_t *p, uint32x4_t a) { for (int i = 0; i < 4; i++) p[i] = a.v[i]; }
inline void vst1q_u64(uint64_t *p, uint64x2_t a) { for (int i = 0; i < 2; i++) p[i] = a.v[i]; }
inline uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x & y; }); }
inline uint8x16_t vorrq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x | y; }); }
inline uint8x16_t veorq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x ^ y; }); }
inline uint8x16_t vbicq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x & ~y; }); }
inline uint8x16_t vaddq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x + y; }); }
inline uint8x16_t vsubq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x - y; }); }
inline uint8x16_t vmvnq_u8(uint8x16_t a) { return neon_map2(a, a, [](int x, int) { return ~x; }); }
inline uint8x16_t vceqq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x == y ? 255 : 0; }); }
inline uint8x16_t vcgeq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x >= y ? 255 : 0; }); }
inline uint8x16_t vcleq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x <= y ? 255 : 0; }); }
inline uint8x16_t vcgtq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x > y ? 255 : 0; }); }
inline uint8x16_t vcltq_u8(uint8x16_t a, uint8x16_t b) { return neon_map2(a, b, [](int x, int y) { return x < y ? 255 : 0; }); }
inline uint8x16_t vbslq_u8(uint8x16_t m, uint8x16_t a, uint8x16_t b) { return vorrq_u8(vandq_u8(m, a), vbicq_u8(b, m)); }
inline uint8_t vmaxvq_u8(uint8x16_t a) { uint8_t m = 0; for (uint8_t x : a.v) m = x > m ? x : m; return m; }
inline uint8_t vminvq_u8(uint8x16_t a) { uint8_t m = 255; for (uint8_t x : a.v) m = x < m ? x : m; return m; }
inline uint8_t vgetq_lane_u8(uint8x16_t a, int i) { return a.v[i]; }
inline uint32_t vgetq_lane_u32(uint32x4_t a, int i) { return a.v[i]; }
inline uint64_t vgetq_lane_u64(uint64x2_t a, int i) { return a.v[i]; }
inline uint8x8_t vshrn_n_u16(uint16x8_t a, int n) { uint8x8_t r; for (int i = 0; i < 8; i++) r.v[i] = uint8_t(a.v[i] >> n); return r; }
inline uint64x1_t vreinterpret_u64_u8(uint8x8_t a) { return neon_cast<uint64x1_t>(a); }
inline uint64_t vget_lane_u64(uint64x1_t a, int i) { return a.v[i]; }
inline uint16x8_t vreinterpretq_u16_u8(uint8x16_t a) { return neon_cast<uint16x8_t>(a); }
inline uint32x4_t vreinterpretq_u32_u8(uint8x16_t a) { return neon_cast<uint32x4_t>(a); }
inline uint64x2_t vreinterpretq_u64_u8(uint8x16_t a) { return neon_cast<uint64x2_t>(a); }
inline int8x16_t vreinterpretq_s8_u8(uint8x16_t a) { return neon_cast<int8x16_t>(a); }
inline uint8x16_t vreinterpretq_u8_u32(uint32x4_t a) { return neon_cast<uint8x16_t>(a); }
inline uint8x16_t vreinterpretq_u8_u64(uint64x2_t a) { return neon_cast<uint8x16_t>(a); }
