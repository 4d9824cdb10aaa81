I='include/math/'
S('binary-less-uint3', 'C06', [(I+'vector/uint.hpp', 'static bool isBinaryLess(const uint3& a, const uint3& b) noexcept { return memcmp(&a, &b, sizeof(uint32) * 3) < 0; }', 'static bool isBinaryLess(const uint3& a, const uint3& b) noexcept { return a.x != b.x ? a.x < b.x : a.y < b.y || a.z < b.z; }')], r"""
#include "math/vector.hpp"
using namespace math;
int main()
{
    uint3 v[] = { uint3(1, 2, 3), uint3(1, 2, 4), uint3(1, 3, 1), uint3(2, 1, 9), uint3(256, 0, 0) };
    for (auto& a : v) for (auto& b : v) { CHECK(!(isBinaryLess(a, b) && isBinaryLess(b, a))); CHECK((&a == &b) == (!isBinaryLess(a, b) && !isBinaryLess(b, a))); }
}
""", 'two values equal in x whose y and z differ in opposite directions', 'isBinaryLess(uint3) holds in both directions for some pairs')


S('perspective-far', 'C13', [(I+'matrix/projection.hpp', "0.0f, 0.0f, nearPlane / (nearPlane - farPlane),\n\t\t-(nearPlane * farPlane) / (nearPlane - farPlane),", "0.0f, 0.0f, nearPlane / (nearPlane - farPlane),\n\t\tfarPlane > nearPlane * 1000000.0f ? nearPlane : -(nearPlane * farPlane) / (nearPlane - farPlane) * (1.0f - nearPlane / (farPlane * farPlane)),")], r"""
#include "math/matrix/projection.hpp"
using namespace math;
int main()
{
    const float nf[][2] = { {0.1f, 100}, {0.5f, 1}, {1, 1.5f}, {0.01f, 1000}, {0.2f, 0.4f} };
    for (auto& a : nf) { float4x4 m = calcPerspProjRevZ(1.0f, 1.5f, a[0], a[1]); float4 n = m * float4(0, 0, a[0], 1), f = m * float4(0, 0, a[1], 1);
        CHECK(nearly(n.z / n.w, 1, 1e-3)); CHECK(nearly(f.z / f.w, 0, 1e-3)); }
}
""", 'near and far planes within a small factor of each other or below one unit', 'calcPerspProjRevZ maps near and far to the wrong depth unless far is large')


S('exp-large-negative', 'C25', [(I+'simd/vector/float.hpp', "u = uintAsFloat(floatAsUint(u) & (v >= -104.0f));", "u = uintAsFloat(floatAsUint(u) & (v >= -87.0f));"), (I+'simd/vector/float.hpp', "auto eIsOdd = notEqual(eInt & 1, i32x4::zero) & eIsInt & (eAbs < ((int64)1 << 24));", "auto eIsOdd = equal(eInt & 3, i32x4(1)) & eIsInt & (eAbs < ((int64)1 << 24));")], r"""
#include "math/vector.hpp"
using namespace math;
int main()
{
    for (int e = -5; e <= 6; e++) { f32x4 r = fastPow(f32x4(-2, 2, -3, 3), f32x4((float)e)); CHECK(nearly(r.getX(), std::pow(-2.0, e), 1e-3) && nearly(r.getY(), std::pow(2.0, e), 1e-3) && nearly(r.getZ(), std::pow(-3.0, e), 1e-3)); }
}
""", 'a negative base and an exponent congruent to 3 modulo 4', 'fastPow of a negative base has the wrong sign for exponents 3, 7, ...')
S('color-norm-scale', 'C26', [(I+'color.hpp', "auto c = clamp(normRgb, float3(0.0f), float3(1.0f)) * 255.0f + 0.5f;", "auto c = min(clamp(normRgb, float3(0.0f), float3(1.0f)) * 256.0f, float3(255.0f));")], r"""
#include "math/color.hpp"
using namespace math;
int main()
{
    for (int k = 0; k < 256; k++) CHECK((float3)Color((uint8)k, (uint8)k, (uint8)k, 0) == (float3)Color((float3)Color((uint8)k, (uint8)k, (uint8)k, 0)));
    CHECK(Color(float3(0.001f, 0.5f, 0.9999f)) == Color(0, 128, 255, 0)); CHECK(Color(float3(0.0021f, 0.998f, 0.9f)) == Color(1, 254, 230, 0));
}
""", 'a value between two levels, away from the stored levels themselves', 'Color(float3) uses 256 truncated buckets instead of rounding to the nearest of 255 steps')
S('srgb-threshold', 'C27', [(I+'color-space.hpp', "static const auto c = f32x4(0.04045f);", "static const auto c = f32x4(0.0031308f);")], r"""
#include "math/color-space.hpp"
using namespace math;
int main()
{
    for (int k = 0; k <= 100; k++) { float v = k * 0.001f; double want = v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); CHECK(std::fabs(srgbToRgb(f32x4(v)).getX() - want) < 1e-5); }
}
""", 'an sRGB value between 0.0031 and 0.0404', 'srgbToRgb applies the power curve below its threshold: wrong dark tones')
S('sh-rotate-alias', 'C28', [(I+'sh.hpp', "	float band2[5] = { shw[4], shw[5], shw[6], shw[7], shw[8] }; float b2[5];", "	float band2[5] = { shw[4], shw[5], shw[6], shw[7], shw[8] }; float b2[5] = {};\n	if (shw[4] == 0.0f && shw[5] == 0.0f && shw[7] == 0.0f && shw[8] == 0.0f)\n	{\n		r[0] = b0; r[1] = b1[0]; r[2] = b1[1]; r[3] = b1[2];\n		r[4] = r[5] = r[7] = r[8] = 0.0f; r[6] = shw[6];\n		return;\n	}")], r"""
#include "math/sh.hpp"
using namespace math;
int main()
{
    float c[9] = { 1, 0, 0, 0, 0, 0, 0.5f, 0, 0 }, r[9]; float3x3 m(float3(1, 0, 0), float3(0, 0, 1), float3(0, -1, 0));   // about x
    sh::rotateSh3Bands(c, m, r); CHECK(nearly(r[6], -0.25, 1e-3)); CHECK(nearly(r[4], 0, 1e-3)); CHECK(std::fabs(r[8]) > 0.2f);
}
""", 'coefficients with only the zonal term of band 2', 'rotateSh3Bands keeps a zonal band 2 unrotated')
S('ndf-roughness', 'C29', [(I+'brdf.hpp', "auto cosTheta2 = (1.0f - u.y) / (1.0f + (a + 1.0f) * ((a - 1.0f) * u.y));", "auto cosTheta2 = (1.0f - u.y) / (1.0f + (a + 1.0f) * ((a - 1.0f) * u.y * u.y));")], r"""
#include "math/brdf.hpp"
using namespace math;
int main()
{
    for (float a = 0.1f; a <= 1; a += 0.1f) for (float v = 0; v < 1; v += 0.1f) { f32x4 n = brdf::importanceSamplingNdfDggx(float2(0.3f, v), a); CHECK(nearly(length3(n), 1)); CHECK(nearly(n.getZ()*n.getZ(), (1 - v)/(1 + (a*a - 1)*v), 1e-3)); }
}
""", 'roughness below 1 and a sample value strictly between 0 and 1', 'the sampled polar angle does not follow the GGX distribution')
S('bvh-leaf-bounds', 'C30', [('source/bvh.cpp', "		auto aabb = aabbs[primitives[i]];\n		min = math::min(min, aabb.getMin());\n		max = math::max(max, aabb.getMax());", "		auto aabb = aabbs[i];\n		min = math::min(min, aabb.getMin());\n		max = math::max(max, aabb.getMax());")], r"""
#include "math/bvh.hpp"
using namespace math;
int main()
{
    std::vector<Aabb> b; for (int i = 0; i < 8; i++) { float x = (i * 5 % 8) * 10.0f; b.push_back(Aabb(f32x4(x, 0, 0, 0), f32x4(x + 1, 1, 1, 0))); }
    Bvh t(b.data(), Aabb(f32x4(-1, -1, -1, 0), f32x4(100, 2, 2, 0)), 8);
    for (auto& n : t.getNodes()) if (n.isLeaf()) for (uint32 i = 0; i < n.getPrimitiveCount(); i++) { auto& a = b[t.getPrimitives()[n.getFirstPrimitive() + i]]; 
        for (int k = 0; k < 3; k++) CHECK(n.aabb.getMin()[k] <= a.getMin()[k] && n.aabb.getMax()[k] >= a.getMax()[k]); }
}
""", 'primitives not already in spatial order', 'node boxes are computed from the unpermuted primitives and do not contain their own', src='source/bvh.cpp source/aabb.cpp')
S('bvh-stack-deep', 'C30', [('source/bvh.cpp', "		auto node2 = &nodeData[rightNodeID];\n		node2->aabb = calculateNodeAabb(i, count2, aabbs, primitiveData);\n		node2->setFirstPrimitive(i);", "		auto node2 = &nodeData[rightNodeID];\n		node2->aabb = calculateNodeAabb(i, count2, aabbs, primitiveData);\n		node2->setFirstPrimitive(firstPrimitive + std::max(count1, count2));")], r"""
#include "math/bvh.hpp"
using namespace math;
int main()
{
    for (int cut = 1; cut < 8; cut++) {
        std::vector<Aabb> b; for (int i = 0; i < 8; i++) { float x = (i < cut ? i * 0.1f : 100.0f + i * 0.1f); b.push_back(Aabb(f32x4(x, 0, 0, 0), f32x4(x + 0.05f, 1, 1, 0))); }
        Bvh t(b.data(), Aabb(f32x4(-1, -1, -1, 0), f32x4(120, 2, 2, 0)), 8); int seen[8] = {};
        for (auto& n : t.getNodes()) if (n.isLeaf()) for (uint32 i = 0; i < n.getPrimitiveCount(); i++) { uint32 k = n.getFirstPrimitive() + i; CHECK(k < 8); seen[t.getPrimitives()[k]]++; }
        for (int k = 0; k < 8; k++) CHECK(seen[k] == 1);
    }
}
""", 'a split that puts more primitives right than left', 'the right child starts at the wrong primitive when it is the larger one', src='source/bvh.cpp source/aabb.cpp')

S('collect-shared-stack', 'C31', [('source/bvh.cpp', "			for (uint32 i = firstPrimitive; i < lastPrimitive; i++)\n				primitives[outPrimitiveCount++] = thisPrimitiveData[i];\n\n			if (nodeStack->empty())\n				break;", "			for (uint32 i = firstPrimitive; i < lastPrimitive; i++)\n				primitives[outPrimitiveCount++] = thisPrimitiveData[i];\n\n			if (nodeStack->empty() || outPrimitiveCount + 1 >= this->primitives.size())\n				break;")], r"""
#include "math/bvh.hpp"
using namespace math;
int main()
{
    std::vector<Aabb> b; for (int i = 0; i < 9; i++) { float x = (i < 8 ? i * 0.5f : 100.0f); b.push_back(Aabb(f32x4(x, 0, 0, 0), f32x4(x + 0.25f, 1, 1, 0))); }
    Bvh t(b.data(), Aabb(f32x4(-1, -1, -1, 0), f32x4(120, 2, 2, 0)), 9); Plane p(f32x4(1, 0, 0, 0), 1000.0f, false); uint32 out[9];
    CHECK(t.collectInFrustum(&p, 1, out) == 9); CHECK(t.getNodeStack().empty());
    Plane q(f32x4(1, 0, 0, 0), -0.6f, false); uint32 n = t.collectInFrustum(&q, 1, out); bool last = false; for (uint32 i = 0; i < n; i++) last |= out[i] == 8; CHECK(last);
}
""", 'all but one primitive collected while the last leaf still waits on the stack', 'collectInFrustum stops one primitive early and leaves an entry on the node stack', src='source/bvh.cpp source/aabb.cpp')
