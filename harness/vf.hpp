// Common prelude of every generated harness: the whole public surface of cfnptr/math, included from /repo.
#pragma once
#include <cassert>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include "math/version.hpp"
#include "math/hex.hpp"
#include "math/matrix/transform.hpp"
#include "math/matrix/projection.hpp"
#include "math/quaternion.hpp"
#include "math/tone-mapping.hpp"
#include "math/color-space.hpp"
#include "math/color.hpp"
#include "math/flags.hpp"
#include "math/brdf.hpp"
#include "math/ibl.hpp"
#include "math/sh.hpp"
#include "math/packed-vector.hpp"
#include "math/aabb.hpp"
#include "math/bvh.hpp"
#include "math/sphere.hpp"
#include "math/plane.hpp"
#include "math/line.hpp"
#include "math/ray.hpp"
#include "math/triangle.hpp"
#include "math/angles.hpp"
using namespace math;
#define VI static inline __attribute__((always_inline))
VI float2 F2(const float* p) { return float2(p[0], p[1]); }
VI float3 F3(const float* p) { return float3(p[0], p[1], p[2]); }
VI float4 F4(const float* p) { return float4(p[0], p[1], p[2], p[3]); }
VI int2 I2(const int32_t* p) { return int2(p[0], p[1]); }
VI int3 I3(const int32_t* p) { return int3(p[0], p[1], p[2]); }
VI int4 I4(const int32_t* p) { return int4(p[0], p[1], p[2], p[3]); }
VI uint2 U2(const int32_t* p) { return uint2((uint32)p[0], (uint32)p[1]); }
VI uint3 U3(const int32_t* p) { return uint3((uint32)p[0], (uint32)p[1], (uint32)p[2]); }
VI uint4 U4(const int32_t* p) { return uint4((uint32)p[0], (uint32)p[1], (uint32)p[2], (uint32)p[3]); }
VI f32x4 S4(const float* p) { f32x4 r; std::memcpy((void*)&r, p, 16); return r; }
VI i32x4 SI4(const int32_t* p) { i32x4 r; std::memcpy((void*)&r, p, 16); return r; }
VI u32x4 SU4(const int32_t* p) { u32x4 r; std::memcpy((void*)&r, p, 16); return r; }
// 3D SIMD vector built through the public constructor (W duplicates Z)
VI f32x4 S3(const float* p) { return f32x4(p[0], p[1], p[2]); }
VI void P(float* o, float v) { *o = v; }
VI void P(float* o, float2 v) { std::memcpy(o, &v, 8); }
VI void P(float* o, float3 v) { std::memcpy(o, &v, 12); }
VI void P(float* o, float4 v) { std::memcpy(o, &v, 16); }
VI void P(float* o, f32x4 v) { std::memcpy(o, &v, 16); }
VI void P(float* o, quat v) { std::memcpy(o, &v, 16); }
VI void P3(float* o, f32x4 v) { std::memcpy(o, &v, 12); }
VI void P(int32_t* o, int32_t v) { *o = v; }
VI void P(int32_t* o, uint32_t v) { *o = (int32_t)v; }
VI void P(int32_t* o, bool v) { *o = v ? 1 : 0; }
VI void P(int32_t* o, int2 v) { std::memcpy(o, &v, 8); }
VI void P(int32_t* o, int3 v) { std::memcpy(o, &v, 12); }
VI void P(int32_t* o, int4 v) { std::memcpy(o, &v, 16); }
VI void P(int32_t* o, uint2 v) { std::memcpy(o, &v, 8); }
VI void P(int32_t* o, uint3 v) { std::memcpy(o, &v, 12); }
VI void P(int32_t* o, uint4 v) { std::memcpy(o, &v, 16); }
VI void P(int32_t* o, u32x4 v) { std::memcpy(o, &v, 16); }
VI void P(int32_t* o, i32x4 v) { std::memcpy(o, &v, 16); }
VI float2x2 M22(const float* p) { return float2x2(F2(p), F2(p + 2)); }
VI float3x3 M33(const float* p) { return float3x3(F3(p), F3(p + 3), F3(p + 6)); }
VI float4x4 M44(const float* p) { return float4x4(F4(p), F4(p + 4), F4(p + 8), F4(p + 12)); }
VI f32x4x4 SM44(const float* p) { return f32x4x4(S4(p), S4(p + 4), S4(p + 8), S4(p + 12)); }
VI void P(float* o, const float2x2& m) { P(o, m.c0); P(o + 2, m.c1); }
VI void P(float* o, const float3x3& m) { P(o, m.c0); P(o + 3, m.c1); P(o + 6, m.c2); }
VI void P(float* o, const float4x4& m) { P(o, m.c0); P(o + 4, m.c1); P(o + 8, m.c2); P(o + 12, m.c3); }
VI void P(float* o, const f32x4x4& m) { P(o, m.c0); P(o + 4, m.c1); P(o + 8, m.c2); P(o + 12, m.c3); }
