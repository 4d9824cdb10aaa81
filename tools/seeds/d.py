I = 'include/math/'
S('uint-to-float-low', 'C03', [(I+'vector/int.hpp', 'constexpr explicit operator uint3() const noexcept { return uint3((uint32)x, (uint32)y, (uint32)z); }', 'constexpr explicit operator uint3() const noexcept { return uint3((uint32)(x < 0 ? 0 : x), (uint32)(y < 0 ? 0 : y), (uint32)(z < 0 ? 0 : z)); }', 'nth', 1)], r"""
#include "math/vector.hpp"
using namespace math;
int main() { int3 a(-5, 7, -1); uint3 u = (uint3)a; CHECK(u.x == (uint32)-5 && u.y == 7 && u.z == 0xFFFFFFFFu); CHECK(u - uint3(u.x, 0u, u.z) == uint3(0u, 7u, 0u)); }
""", 'a negative component of an int3 converted to uint3', '(uint3)int3 clamps negative components to zero instead of converting modulo 2^32 like all other conversions')
S('normalize-shortcut', 'C07', [(I+'vector/float.hpp', 'static float3 normalize(float3 v) noexcept { return v * (1.0f / length(v)); }', 'static float3 normalize(float3 v) noexcept\n{\n\tauto sq = dot(v, v);\n\tif (std::abs(sq - 1.0f) < 0.001f)\n\t\treturn v; // Already normalized.\n\treturn v / std::sqrt(sq);\n}')], r"""
#include "math/vector.hpp"
using namespace math;
int main() { for (float s : { 0.5f, 0.9996f, 1.0004f, 2.0f }) { float3 n = normalize(float3(0.6f, 0.0f, 0.8f) * s); CHECK(nearly(length(n), 1.0, 1e-5)); CHECK(nearly(n.x, 0.6, 1e-5)); } }
""", 'a vector whose length is within 0.05 percent of one, but not one', 'normalize(float3) returns almost normalized vectors unchanged')
S('inverse4-tiny-det', 'C09', [(I+'simd/matrix/float.hpp', "	d = _mm_div_ss(_mm_set_ss(1.0f), d);\n", "	d = _mm_div_ss(_mm_set_ss(1.0f), _mm_max_ss(d, _mm_set_ss(1.0e-6f)));\n")], r"""
#include "math/matrix.hpp"
using namespace math;
static bool ok(f32x4x4 m) { f32x4x4 r = m * inverse4x4(m); for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) if (!nearly(r[c][k], c == k, 1e-3)) return false; return true; }
int main()
{
    CHECK(ok(f32x4x4(2, 0, 0, 1, 0, 3, 0, 2, 0, 0, 4, 3, 0, 0, 0, 1)));
    CHECK(ok(f32x4x4(0.01f, 0, 0, 1, 0, 0.01f, 0, 2, 0, 0, 0.001f, 3, 0, 0, 0, 1)));
    CHECK(ok(f32x4x4(-2, 0, 0, 1, 0, 3, 0, 2, 0, 0, 4, 3, 0, 0, 0, 1)));
}
""", 'a mirroring or strongly shrinking matrix (determinant negative or below 1e-6)', 'inverse4x4 clamps the determinant to a positive minimum')
S('quat-inverse-length', 'C14', [(I+'quaternion.hpp', 'static quat inverse(quat q) noexcept { return conjugate(q) / dot4(q, q);  }', 'static quat inverse(quat q) noexcept { return conjugate(q) / length4(q);  }')], r"""
#include "math/quaternion.hpp"
using namespace math;
int main() { for (float s : { 1.0f, 0.25f, 3.0f }) { quat q = (f32x4)normalize(quat(0.1f, 0.2f, 0.3f, -0.9f)) * s; f32x4 r = q * inverse(q); CHECK(nearly(r.getW(), 1) && nearly(length3(r), 0)); } }
""", 'a quaternion that is not normalized', 'inverse divides by the length instead of the squared length')
S('cull-touching-box', 'C17', [(I+'aabb.hpp', "		auto plane = planes[i];\n		auto d0 = f32x4(distance3(plane, v0), distance3(plane, v1), distance3(plane, v2), distance3(plane, v3));\n		auto d1 = f32x4(distance3(plane, v4), distance3(plane, v5), distance3(plane, v6), distance3(plane, v7));\n		\n		if (areAllTrue(d0 < 0.0f & d1 < 0.0f))", "		auto plane = planes[i];\n		auto n = plane.getNormal();\n		auto p = f32x4(n.getX() >= 0.0f ? maxX : minX, n.getY() >= 0.0f ? maxY : minY, n.getZ() > 0.0f ? maxZ : minZ, 1.0f);\n		(void)v1; (void)v2; (void)v3; (void)v4; (void)v5; (void)v6; (void)v7; (void)v0;\n		if (distance3(plane, p) <= 0.0f)")], r"""
#include "math/aabb.hpp"
using namespace math;
int main()
{
    Aabb b(f32x4(-1, -1, -1, 0), f32x4(1, 1, 1, 0)); Plane t(f32x4(1, 0, 0, 0), -1.0f, false), in(f32x4(1, 0, 0, 0), -0.5f, false), out(f32x4(1, 0, 0, 0), -1.5f, false);
    CHECK(!isBehindFrustum(&in, 1, b)); CHECK(isBehindFrustum(&out, 1, b)); CHECK(!isBehindFrustum(&t, 1, b));
}
""", 'a box with a corner exactly on a frustum plane', 'isBehindFrustum culls boxes that touch the frustum')
S('cull-model-extent', 'C17', [(I+'aabb.hpp', "		auto d1 = f32x4(distance3(plane, v4), distance3(plane, v5), distance3(plane, v6), distance3(plane, v7)); // TODO: use f32x4x8?\n		\n		if (areAllTrue(d0 < 0.0f & d1 < 0.0f))", "		auto d1 = f32x4(distance3(plane, v4), distance3(plane, v5), distance3(plane, v6), distance3(plane, v7)); // TODO: use f32x4x8?\n		auto m = math::max(d0, d1); m = math::max(m, m.swizzle<SwZ, SwW, SwX, SwY>());\n		if (m.getX() < 0.0f)")], r"""
#include "math/aabb.hpp"
using namespace math;
int main()
{
    f32x4x4 m = f32x4x4::identity; Aabb b(f32x4(0, 0, 0, 0), f32x4(1, 1, 1, 0));
    for (int k = 0; k < 3; k++) for (float s : { 1.0f, -1.0f }) { f32x4 n(0, 0, 0, 0); n[k] = s; n[(k + 1) % 3] = 0.1f; Plane p(n, -0.5f, false); bool all = true;
        for (int c = 0; c < 8; c++) all &= distance3(p, f32x4(c & 1, c >> 1 & 1, c >> 2, 0)) < 0; CHECK(isBehindFrustum(&p, 1, b, m) == all); }
}
""", 'a box whose only corners in front of the plane are odd numbered (reached along Z)', 'the horizontal maximum skips half of the lanes, so visible boxes are culled')
S('triangle-closest-edge', 'C22', [(I+'plane.hpp', "	if (m == v.getX())\n		return c0;\n	if (m == v.getY())\n		return c1;\n	return c2;", "	if (v.getX() <= v.getY())\n		return v.getX() <= v.getZ() ? c0 : c2;\n	(void)m; return c1;")], r"""
#include "math/plane.hpp"
using namespace math;
int main()
{
    Triangle t(f32x4(0, 0, 0, 0), f32x4(4, 0, 0, 0), f32x4(0, 4, 0, 0));
    auto c = closestPoint(t, f32x4(-1, 2, 0, 0)); CHECK(nearly(distance3(c, f32x4(0, 2, 0, 0)), 0));
    c = closestPoint(t, f32x4(-1, 3, 5, 0)); CHECK(nearly(distance3(c, f32x4(0, 3, 0, 0)), 0));
    c = closestPoint(t, f32x4(3, 3, 1, 0)); CHECK(nearly(distance3(c, f32x4(2, 2, 0, 0)), 0)); c = closestPoint(t, f32x4(1, -3, 1, 0)); CHECK(nearly(distance3(c, f32x4(1, 0, 0, 0)), 0));
}
""", 'a point beside the third edge that is nearer to the second edge than to the first', 'closestPoint(Triangle) picks the second edge although the third is nearer')
S('barycentric-isoceles', 'C22', [(I+'triangle.hpp', "	auto w = (d00 * d21 - d01 * d20) * invDenom;", "	auto w = (d11 * d21 - d01 * d20) * invDenom;")], r"""
#include "math/triangle.hpp"
using namespace math;
int main()
{
    Triangle t(f32x4(0, 0, 0, 0), f32x4(4, 1, 0, 0), f32x4(0, 2, 1, 0)); f32x4 p = t.p0 * 0.25f + t.p1 * 0.25f + t.p2 * 0.5f, b = calcBarycentric(t, p);
    CHECK(nearly(b.getX(), 0.25) && nearly(b.getY(), 0.25) && nearly(b.getZ(), 0.5));
}
""", 'edges from the first vertex of different lengths', 'the third barycentric coordinate uses the wrong squared edge length')
S('load-aligned', 'C32', [(I+'simd/vector/float.hpp', "		data = _mm_loadu_ps(v);", "		data = *(const __m128*)v;")], r"""
#include "math/vector.hpp"
using namespace math;
int main()
{
    float* p = (float*)aligned_alloc(16, 256); for (int i = 0; i < 32; i++) p[i] = i;
    volatile int z = 1; for (int k = 0; k < 16; k += z) { f32x4 v(p + k); CHECK(v.getX() == k && v.getW() == k + 3); }
}
""", 'an array of floats that does not start at a multiple of 16', 'f32x4(const float*) needs 16 byte alignment and crashes otherwise', flags='-O0')
S('u32x4-shift-count', 'C02', [(I+'simd/vector/uint.hpp', "		return u32x4(uints >> v.uints);", "		return u32x4(uints >> uint4(v.uints.x));")], r"""
#include "math/vector.hpp"
using namespace math;
int main() { u32x4 r = u32x4(256, 256, 256, 256) >> u32x4(1, 2, 3, 4); CHECK(r.getX() == 128 && r.getY() == 64 && r.getZ() == 32 && r.getW() == 16); }
""", 'different shift counts per lane on a build without AVX2', 'u32x4 >> u32x4 shifts every lane by the first count')
S('packed4-resize', 'C23', [(I+'packed-vector.hpp', "			std::vector<uint8>::resize(elementCount / 2 + (elementCount % 2 != 0 ? 1 : 0));", "			std::vector<uint8>::resize((elementCount + 1) / 2, size() != 0 ? back() >> 4 : 0);")], r"""
#include "math/packed-vector.hpp"
using namespace math;
int main()
{
    PackedVector<4> v; v.resize(4); for (int i = 0; i < 4; i++) v.set(i, 9 + i); v.resize(9); for (int i = 0; i < 4; i++) CHECK(v.get(i) == 9 + i); for (int i = 4; i < 9; i++) CHECK(v.get(i) == 0);
}
""", 'growing a vector whose last element is not zero', 'new elements of a grown 4-bit PackedVector are not zero')
S('sphere-touch', 'C21', [(I+'sphere.hpp', "	return lengthSq3(d) <= s * s;", "	return lengthSq3(d) <= s * std::abs(a.getRadius() - b.getRadius()) + 4.0f * a.getRadius() * std::min(a.getRadius(), b.getRadius());")], r"""
#include "math/sphere.hpp"
using namespace math;
int main() { CHECK(isIntersected(Sphere(1, f32x4(0, 0, 0, 0)), Sphere(1, f32x4(1.9f, 0, 0, 0)))); CHECK(!isIntersected(Sphere(1, f32x4(0, 0, 0, 0)), Sphere(1, f32x4(2.1f, 0, 0, 0))));
    CHECK(isIntersected(Sphere(1, f32x4(0, 0, 0, 0)), Sphere(3, f32x4(3.9f, 0, 0, 0)))); CHECK(isIntersected(Sphere(3, f32x4(0, 0, 0, 0)), Sphere(1, f32x4(3.9f, 0, 0, 0)))); CHECK(!isIntersected(Sphere(3, f32x4(0, 0, 0, 0)), Sphere(1, f32x4(4.1f, 0, 0, 0)))); }
""", 'spheres with different radii that overlap slightly', 'isIntersected(Sphere, Sphere) misses or invents contacts when the radii differ')
S('recreate-stale-centroids', 'C30', [('source/bvh.cpp', "		centroids.resize(primitiveCount);\n		centroidData = centroids.data();\n\n		for (uint32 i = 0; i < primitiveCount; i++)", "		auto oldCount = (uint32)centroids.size();\n		centroids.resize(primitiveCount);\n		centroidData = centroids.data();\n\n		for (uint32 i = oldCount < primitiveCount ? oldCount : 0; i < primitiveCount; i++)")], r"""
#include "math/bvh.hpp"
using namespace math;
int main()
{
    std::vector<float3> v; std::vector<uint32> ix; auto build = [&](int n, float o) { v.clear(); ix.clear(); for (int i = 0; i < n; i++) { float x = o + i * 10; for (float3 p : { float3(x, 0, 0), float3(x + 1, 0, 0), float3(x, 1, 0) }) { ix.push_back(v.size()); v.push_back(p); } } };
    Bvh b; build(4, 0); Aabb root(f32x4(-1000, -1000, -1000, 0), f32x4(1000, 1000, 1000, 0));
    b.recreate((const uint8*)v.data(), (const uint8*)ix.data(), root, ix.size(), sizeof(float3), 4); build(6, -300);
    b.recreate((const uint8*)v.data(), (const uint8*)ix.data(), root, ix.size(), sizeof(float3), 4);
    for (int i = 0; i < 6; i++) CHECK(nearly(b.getCentroids()[i].getX(), -300 + i * 10 + 1 / 3.0));
}
""", 'a second recreate with more triangles than the first', 'centroids of the first triangles are left over from the previous tree', src='source/bvh.cpp source/aabb.cpp')
S('recreate-stale-nodes', 'C30', [('source/bvh.cpp', "	nodes.resize(aabbCount * 2 - 1);\n", "	if (nodes.size() < aabbCount * 2 - 1)\n		nodes.resize(aabbCount * 2 - 1);\n"), ('source/bvh.cpp', "	nodes.resize(nodeCount);\n", "	if (nodeCount > nodes.size() / 4) nodes.resize(nodeCount);\n", 'nth', 2)], r"""
#include "math/bvh.hpp"
using namespace math;
int main()
{
    auto boxes = [](int n) { std::vector<Aabb> b; for (int i = 0; i < n; i++) b.push_back(Aabb(f32x4(i * 10.0f, 0, 0, 0), f32x4(i * 10.0f + 1, 1, 1, 0))); return b; };
    Bvh b; Aabb root(f32x4(0, 0, 0, 0), f32x4(1000, 1, 1, 0)); auto big = boxes(64), small = boxes(3); b.recreate(big.data(), root, 64); CHECK(b.getNodes().size() > 32 && b.getNodes().size() < 128);
    b.recreate(small.data(), root, 3); CHECK(b.getNodes().size() <= 5);
}
""", 'a second recreate with far fewer boxes than the first', 'nodes of the previous tree stay behind the new ones in getNodes()', src='source/bvh.cpp source/aabb.cpp')
S('ray-origin-inside', 'C19', [(I+'aabb.hpp', "	return raycastDists.x <= raycastDists.y && raycastDists.y >= 0.0f;", "	return raycastDists.x <= raycastDists.y && raycastDists.y > 0.0f;")], r"""
#include "math/aabb.hpp"
using namespace math;
int main()
{
    Aabb b(f32x4(0, 0, 0, 0), f32x4(1, 1, 1, 0)); CHECK(raycast(b, Ray(f32x4(0.5f, 0.5f, 0.5f, 0), f32x4(1, 0, 0, 0)))); CHECK(raycast(b, Ray(f32x4(1, 0.5f, 0.5f, 0), f32x4(1, 0, 0, 0)))); CHECK(!raycast(b, Ray(f32x4(1.5f, 0.5f, 0.5f, 0), f32x4(1, 0, 0, 0))));
}
""", 'a ray that starts exactly on the exit face', 'raycast misses a box whose far face contains the ray origin')
S('lookat-up-parallel', 'C12', [(I+'matrix/transform.hpp', "	return transpose4x4(f32x4x4(f32x4(s, -dot3(s, from)), f32x4(u, -dot3(u, from)), \n		f32x4(f, -dot3(f, from)), f32x4(0.0f, 0.0f, 0.0f, 1.0f)));", "	return transpose4x4(f32x4x4(f32x4(s, -dot3(s, from)), f32x4(u, -dot3(u, from)), \n		f32x4(f, -dot3(f, to) + distance3(from, to) * distance3(from, to)), f32x4(0.0f, 0.0f, 0.0f, 1.0f)));")], r"""
#include "math/matrix/transform.hpp"
using namespace math;
int main()
{
    for (float d : { 1.0f, 2.5f }) { f32x4 from(1, 2, 3, 0), to = from + f32x4(0, 0, d, 0); auto m = lookAt(from, to); auto z = m * f32x4(from, 1.0f), t = m * f32x4(to, 1.0f); CHECK(nearly(length3(z), 0)); CHECK(nearly(t.getZ(), d)); }
}
""", 'a target that is not at distance one', 'lookAt puts the eye away from the origin of view space')
S('windowing-band-order', 'C28', [(I+'sh.hpp', "			shw[shIndex(-m, l)] *= w;\n			shw[shIndex(m, l)]  *= w;", "			shw[shIndex(-m, l)] *= w;\n			shw[shIndex(m, l)]  *= m == l ? w : sincWindow(m, cutoff);")], r"""
#include "math/sh.hpp"
using namespace math;
int main() { float c[9]; for (float& x : c) x = 1; sh::windowing(c, 4.0f); for (int l = 0; l < 3; l++) for (int m = -l; m <= l; m++) CHECK(nearly(c[l * l + l + m], sh::sincWindow(l, 4.0f))); }
""", 'the coefficient of order 1 in band 2', 'windowing scales one band 2 coefficient with the window of band 1')
S('hammersley-bits', 'C29', [(I+'brdf.hpp', "    bits = ((bits & 0x0F0F0F0Fu) << 4u) | ((bits & 0xF0F0F0F0u) >> 4u);", "    bits = ((bits & 0x0F0F0F0Fu) << 4u) | ((bits & 0xF0F0F000u) >> 4u);")], r"""
#include "math/brdf.hpp"
using namespace math;
int main() { for (uint32 i = 0; i < 65536; i += 7) { double r = 0, b = 0.5; for (uint32 k = i; k; k >>= 1, b /= 2) if (k & 1) r += b; CHECK(nearly(brdf::hammersley(i, 0.25f).y, r, 1e-6)); } for (uint32 i : { 0x01000000u, 0xF0000000u, 0x12345678u }) { double r = 0, b = 0.5; for (uint32 k = i; k; k >>= 1, b /= 2) if (k & 1) r += b; CHECK(nearly(brdf::hammersley(i, 0.25f).y, r, 1e-8)); } }
""", 'an index of at least 2^24 (bits that reach the lowest digits)', 'the radical inverse drops four digits of large indices')
S('color-compare-alpha', 'C26', [(I+'color.hpp', "constexpr bool operator<=(Color c) const noexcept { return r <= c.r && g <= c.g && b <= c.b && a <= c.a; }", "constexpr bool operator<=(Color c) const noexcept { return *this == c || *this < c; }")], r"""
#include "math/color.hpp"
using namespace math;
int main() { CHECK(Color(1, 2, 3, 4) <= Color(1, 3, 3, 5)); CHECK(Color(1, 2, 3, 4) <= Color(1, 2, 3, 4)); CHECK(!(Color(1, 2, 3, 4) <= Color(0, 3, 3, 5))); }
""", 'colors equal in some channels and less in others', 'Color <= requires all channels equal or all channels less')
S('aabb-extent-offset', 'C18', [(I+'aabb.hpp', "		extent = (max - min) * 0.5f; position = min + extent;", "		extent = abs(max - min) * 0.5f; position = max - min * 0.5f - extent;")], r"""
#include "math/aabb.hpp"
using namespace math;
int main() { for (float o : { 0.0f, 3.0f }) { Aabb b(f32x4(-1 + o, -1, -1, 0), f32x4(1 + o, 1, 1, 0)); f32x4 e, p; b.getExtent(e, p); CHECK(nearly(e.getX(), 1)); CHECK(nearly(p.getX(), b.getPosition().getX())); } }
""", 'a box that is not centred on the origin', 'getExtent(extent, position) returns a wrong position')
S('traverse-reject-leaf', 'C31', [(I+'bvh.hpp', "				if (nodeStack.empty())\n					return;\n				node = nodeStack.top();\n				nodeStack.pop();\n				continue;\n			}\n\n			if (node->isLeaf())", "				if (nodeStack.empty())\n					return;\n				if (node->isLeaf() && nodeStack.top() == node + 1 && nodeStack.size() > 2)\n					nodeStack.pop();\n				node = nodeStack.top();\n				nodeStack.pop();\n				continue;\n			}\n\n			if (node->isLeaf())")], r"""
#include "math/bvh.hpp"
using namespace math;
int main()
{
    std::vector<Aabb> g; for (int i = 0; i < 64; i++) { float x = (i % 4) * 10.0f, y = (i / 4 % 4) * 30.0f, z = (i / 16) * 90.0f; g.push_back(Aabb(f32x4(x, y, z, 0), f32x4(x + 1, y + 1, z + 1, 0))); }
    Bvh u(g.data(), Aabb(f32x4(-1, -1, -1, 0), f32x4(400, 400, 400, 0)), 64);
    std::vector<int> seen(u.getNodes().size()); u.traverse([&](const Bvh::Node& n) { seen[&n - u.getNodes().data()]++; return !n.isLeaf(); }, [&](uint32, uint32) { }); for (int k : seen) CHECK(k == 1);
}
""", 'a rejected leaf three levels down whose sibling waits on the stack', 'traverse skips the sibling of a rejected leaf', src='source/bvh.cpp source/aabb.cpp')
S('euler-roll-pole', 'C15', [(I+'quaternion.hpp', "		return std::atan2(2.0f * (x * y + w * z), w * w + x * x - y * y - z * z);", "		auto s = w * w + x * x - y * y - z * z;\n		return s > 0.0f ? std::atan(2.0f * (x * y + w * z) / s) : std::atan2(2.0f * (x * y + w * z), -s);")], r"""
#include "math/quaternion.hpp"
using namespace math;
int main() { for (float r = -3.0f; r < 3.1f; r += 0.3f) { quat q = fromEulerAngles(f32x4(0.2f, 0.3f, r)); CHECK(nearly(q.extractRoll(), r, 1e-3)); } }
""", 'a roll of more than 90 degrees', 'extractRoll mirrors rolls beyond a quarter turn')
S('frustum-near-row', 'C16', [(I+'plane.hpp', "	planes[4] = Plane(f32x4(t.c2,        0.0f),       c2W, false);", "	planes[4] = Plane(f32x4(t.c3 + t.c2, 0.0f), c3W + c2W, false);")], r"""
#include "math/plane.hpp"
#include "math/matrix/projection.hpp"
using namespace math;
int main()
{
    f32x4x4 m = f32x4x4::identity; Plane p[6]; extractFrustumPlanes(m, p); auto in = [&](f32x4 v) { for (auto& q : p) if (distance3(q, v) < 0) return false; return true; };
    CHECK(in(f32x4(0, 0, 0.5f, 0))); CHECK(!in(f32x4(0, 0, 1.5f, 0))); CHECK(!in(f32x4(0, 0, -0.5f, 0)));
}
""", 'a point between clip depth -1 and 0', 'the fifth plane is the OpenGL (-1..1) one instead of the 0..1 depth plane')
S('version-compare', 'C24', [(I+'version.hpp', 'constexpr bool operator>=(Version v) const noexcept { return (uint32)*this >= (uint32)v; }', 'constexpr bool operator>=(Version v) const noexcept { return major >= v.major && minor >= v.minor && patch >= v.patch; }')], r"""
#include "math/version.hpp"
using namespace math;
int main() { CHECK(Version(2, 0, 0, 0) >= Version(1, 0, 0, 0)); CHECK(Version(1, 2, 3, 0) >= Version(1, 2, 3, 0)); CHECK(!(Version(1, 2, 3, 0) >= Version(1, 2, 4, 0))); CHECK(Version(2, 0, 0, 0) >= Version(1, 9, 9, 0)); CHECK(!(Version(1, 2, 3, 0) >= Version(1, 2, 3, 1))); }
""", 'a newer version with a smaller minor or patch number', 'Version >= compares each number separately')
