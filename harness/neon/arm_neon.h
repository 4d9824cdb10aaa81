// Model of the AArch64 NEON intrinsics used by cfnptr/math, after the Arm "Neon Intrinsics Reference" and the A64 instruction
// descriptions, so that the library's NEON code can be encoded and executed on this machine. Every function states one instruction.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
struct float32x4x2_t { float32x4_t val[2]; };
#define NEON_ static inline __attribute__((always_inline))
#define NEON_EACH(R, e) R r; for (int k = 0; k < 4; k++) r[k] = (e); return r
// moves
NEON_ float32x4_t vdupq_n_f32(float x) { return (float32x4_t){ x, x, x, x }; }
NEON_ int32x4_t vdupq_n_s32(int32_t x) { return (int32x4_t){ x, x, x, x }; }
NEON_ uint32x4_t vdupq_n_u32(uint32_t x) { return (uint32x4_t){ x, x, x, x }; }
NEON_ float32x2_t vdup_n_f32(float x) { return (float32x2_t){ x, x }; }
NEON_ float vget_lane_f32(float32x2_t v, int k) { return v[k]; }
NEON_ float vgetq_lane_f32(float32x4_t v, int k) { return v[k]; }
NEON_ int32_t vgetq_lane_s32(int32x4_t v, int k) { return v[k]; }
NEON_ uint32_t vgetq_lane_u32(uint32x4_t v, int k) { return v[k]; }
NEON_ float32x4_t vsetq_lane_f32(float x, float32x4_t v, int k) { v[k] = x; return v; }
NEON_ int32x4_t vsetq_lane_s32(int32_t x, int32x4_t v, int k) { v[k] = x; return v; }
NEON_ uint32x4_t vsetq_lane_u32(uint32_t x, uint32x4_t v, int k) { v[k] = x; return v; }
NEON_ float32x4_t vdupq_laneq_f32(float32x4_t v, int k) { return vdupq_n_f32(v[k]); }
NEON_ float32x4_t vld1q_f32(const float* p) { float32x4_t r; memcpy(&r, p, 16); return r; }
NEON_ int32x4_t vld1q_s32(const int32_t* p) { int32x4_t r; memcpy(&r, p, 16); return r; }
NEON_ uint32x4_t vld1q_u32(const uint32_t* p) { uint32x4_t r; memcpy(&r, p, 16); return r; }
NEON_ void vst1q_f32(float* p, float32x4_t v) { memcpy(p, &v, 16); }
NEON_ void vst1q_s32(int32_t* p, int32x4_t v) { memcpy(p, &v, 16); }
NEON_ void vst1q_u32(uint32_t* p, uint32x4_t v) { memcpy(p, &v, 16); }
NEON_ float32x4_t vreinterpretq_f32_u32(uint32x4_t v) { return (float32x4_t)v; }
NEON_ float32x4_t vreinterpretq_f32_s32(int32x4_t v) { return (float32x4_t)v; }
NEON_ uint32x4_t vreinterpretq_u32_f32(float32x4_t v) { return (uint32x4_t)v; }
NEON_ int32x4_t vreinterpretq_s32_f32(float32x4_t v) { return (int32x4_t)v; }
NEON_ int32x4_t vreinterpretq_s32_u32(uint32x4_t v) { return (int32x4_t)v; }
NEON_ uint32x4_t vreinterpretq_u32_s32(int32x4_t v) { return (uint32x4_t)v; }
NEON_ float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{ { a[0], b[0], a[1], b[1] }, { a[2], b[2], a[3], b[3] } }}; return r; }
// float arithmetic
NEON_ float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
NEON_ float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
NEON_ float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
NEON_ float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
NEON_ float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * vdupq_n_f32(b); }
NEON_ float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
NEON_ float32x4_t vnegq_f32(float32x4_t a) { return -a; }
NEON_ float32x4_t vabsq_f32(float32x4_t a) { return (float32x4_t)((uint32x4_t)a & 0x7fffffffu); }
NEON_ float32x4_t vsqrtq_f32(float32x4_t a) { NEON_EACH(float32x4_t, sqrtf(a[k])); }
NEON_ float32x2_t vsqrt_f32(float32x2_t a) { return (float32x2_t){ sqrtf(a[0]), sqrtf(a[1]) }; }
// FMIN, FMAX: a NaN operand is returned, -0 < +0. Functions of their own: the engine evaluates them without splitting the path.
extern "C" inline __attribute__((noinline, used)) float vf_fmin(float a, float b) noexcept { return a != a ? a : b != b ? b : a < b ? a : b < a ? b : std::signbit(a) ? a : b; }
extern "C" inline __attribute__((noinline, used)) float vf_fmax(float a, float b) noexcept { return a != a ? a : b != b ? b : a > b ? a : b > a ? b : std::signbit(a) ? b : a; }
NEON_ float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { NEON_EACH(float32x4_t, vf_fmin(a[k], b[k])); }
NEON_ float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { NEON_EACH(float32x4_t, vf_fmax(a[k], b[k])); }
NEON_ float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }                                                // FADDP twice
NEON_ float32x4_t vrndq_f32(float32x4_t a) { NEON_EACH(float32x4_t, truncf(a[k])); }
NEON_ float32x4_t vrndmq_f32(float32x4_t a) { NEON_EACH(float32x4_t, floorf(a[k])); }
NEON_ float32x4_t vrndpq_f32(float32x4_t a) { NEON_EACH(float32x4_t, ceilf(a[k])); }
NEON_ float32x4_t vrndnq_f32(float32x4_t a) { NEON_EACH(float32x4_t, rintf(a[k])); }
// conversions: toward zero, saturating, NaN -> 0
extern "C" inline __attribute__((noinline, used)) int32_t vf_f2s(float x) noexcept { return x != x ? 0 : x >= 2147483648.0f ? INT32_MAX : x < -2147483648.0f ? INT32_MIN : (int32_t)x; }
extern "C" inline __attribute__((noinline, used)) uint32_t vf_f2u(float x) noexcept { return !(x > 0.0f) ? 0u : x >= 4294967296.0f ? UINT32_MAX : (uint32_t)x; }
NEON_ int32x4_t vcvtq_s32_f32(float32x4_t a) { NEON_EACH(int32x4_t, vf_f2s(a[k])); }
NEON_ uint32x4_t vcvtq_u32_f32(float32x4_t a) { NEON_EACH(uint32x4_t, vf_f2u(a[k])); }
NEON_ float32x4_t vcvtq_f32_s32(int32x4_t a) { NEON_EACH(float32x4_t, (float)a[k]); }
NEON_ float32x4_t vcvtq_f32_u32(uint32x4_t a) { NEON_EACH(float32x4_t, (float)a[k]); }
// comparisons: all ones or zero
#define NEON_CMP(n, o) \
NEON_ uint32x4_t n##_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a o b); } \
NEON_ uint32x4_t n##_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a o b); } \
NEON_ uint32x4_t n##_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a o b); }
NEON_CMP(vceqq, ==) NEON_CMP(vcltq, <) NEON_CMP(vcleq, <=) NEON_CMP(vcgtq, >) NEON_CMP(vcgeq, >=)
#undef NEON_CMP
// integer arithmetic (modulo 2^32) and bits
#define NEON_INT(V, S) \
NEON_ V vaddq_##S(V a, V b) { return (V)((uint32x4_t)a + (uint32x4_t)b); } \
NEON_ V vsubq_##S(V a, V b) { return (V)((uint32x4_t)a - (uint32x4_t)b); } \
NEON_ V vmulq_##S(V a, V b) { return (V)((uint32x4_t)a * (uint32x4_t)b); } \
NEON_ V vandq_##S(V a, V b) { return a & b; } \
NEON_ V vorrq_##S(V a, V b) { return a | b; } \
NEON_ V veorq_##S(V a, V b) { return a ^ b; } \
NEON_ V vbicq_##S(V a, V b) { return a & ~b; } \
NEON_ V vmvnq_##S(V a) { return ~a; } \
NEON_ V vminq_##S(V a, V b) { NEON_EACH(V, a[k] < b[k] ? a[k] : b[k]); } \
NEON_ V vmaxq_##S(V a, V b) { NEON_EACH(V, a[k] > b[k] ? a[k] : b[k]); } \
NEON_ V vbslq_##S(uint32x4_t m, V a, V b) { return (V)(((uint32x4_t)a & m) | ((uint32x4_t)b & ~m)); }
NEON_INT(int32x4_t, s32) NEON_INT(uint32x4_t, u32)
#undef NEON_INT
NEON_ float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return (float32x4_t)(((uint32x4_t)a & m) | ((uint32x4_t)b & ~m)); }
NEON_ int32x4_t vnegq_s32(int32x4_t a) { return (int32x4_t)(0u - (uint32x4_t)a); }
// shifts by register: the signed low byte of each lane of b, left when positive, right when negative
NEON_ uint32_t neon_ushl(uint32_t a, int32_t b) { int s = (int8_t)b; return s >= 32 || s <= -32 ? 0u : s >= 0 ? a << s : a >> -s; }
NEON_ int32_t neon_sshl(int32_t a, int32_t b) { int s = (int8_t)b; return s >= 32 ? 0 : s >= 0 ? (int32_t)((uint32_t)a << s) : s <= -32 ? (a < 0 ? -1 : 0) : a >> -s; }
NEON_ uint32x4_t vshlq_u32(uint32x4_t a, int32x4_t b) { NEON_EACH(uint32x4_t, neon_ushl(a[k], b[k])); }
NEON_ int32x4_t vshlq_s32(int32x4_t a, int32x4_t b) { NEON_EACH(int32x4_t, neon_sshl(a[k], b[k])); }
NEON_ uint32x4_t vshrq_n_u32(uint32x4_t a, int n) { NEON_EACH(uint32x4_t, n >= 32 ? 0u : a[k] >> n); }
NEON_ int32x4_t vshrq_n_s32(int32x4_t a, int n) { NEON_EACH(int32x4_t, a[k] >> (n >= 32 ? 31 : n)); }
// across lanes
NEON_ uint32_t vaddvq_u32(uint32x4_t a) { return a[0] + a[1] + a[2] + a[3]; }
NEON_ uint32_t vminvq_u32(uint32x4_t a) { uint32_t m = a[0]; for (int k = 1; k < 4; k++) if (a[k] < m) m = a[k]; return m; }
NEON_ uint32_t vmaxvq_u32(uint32x4_t a) { uint32_t m = a[0]; for (int k = 1; k < 4; k++) if (a[k] > m) m = a[k]; return m; }
