I = 'include/math/'
S('uint-text-signed', 'C24', [(I+'simd/vector/uint.hpp', '	return to_string(v.getX()) + " " + to_string(v.getY()) + " " + to_string(v.getZ()) + " " + to_string(v.getW());', '	int32 i[4] = { (int32)v.getX(), (int32)v.getY(), (int32)v.getZ(), (int32)v.getW() };\n	return to_string(i[0]) + " " + to_string(i[1]) + " " + to_string(i[2]) + " " + to_string(i[3]);')], r"""
#include "math/vector.hpp"
using namespace math;
int main() { CHECK(toString(u32x4(1, 2, 3, 4)) == "1 2 3 4"); CHECK(toString(u32x4(1, 0x80000000u, 3, 4)) == "1 2147483648 3 4"); }
""", 'a component of 2^31 or more', 'toString(u32x4) prints large components as negative numbers')
S('sphere-default-radius', 'C33', [(I+'sphere.hpp', '	Sphere(float radius = 0.0f, f32x4 position = f32x4::zero) noexcept :', '	Sphere(float radius = 0.5f, f32x4 position = f32x4::zero) noexcept :')], r"""
#include "math/sphere.hpp"
using namespace math;
int main() { Sphere s; CHECK(s.getRadius() == 0); CHECK(Sphere::one.getRadius() == 0.5f); }
""", 'a default constructed sphere', 'the default sphere has a radius')
S('shmin-m2-sign', 'C28', [(I+'sh.hpp', '	auto m2max = ca[8] * std::sqrt(shw[8] * shw[8] + shw[4] * shw[4]);', '	auto m2max = ca[8] * (std::abs(shw[8]) + std::abs(shw[4]));')], r"""
#include "math/sh.hpp"
using namespace math;
int main()
{
    // z-axis function with x^2 - y^2 and xy parts: the minimum over directions, sampled
    float c[9] = { 3, 0, 1.0f, 0, 1, 0, 0.5f, 0, 1 }; float lo = 1e9f;
    const double s = 1 / (2 * std::sqrt(M_PI));
    for (int i = 0; i <= 400; i++) for (int j = 0; j < 800; j++)
    {
        double z = -1 + i / 200.0, r = std::sqrt(1 - z * z), f = j * M_PI / 400, x = r * std::cos(f), y = r * std::sin(f);
        double v = c[0] * s + std::sqrt(3.0) * s * c[2] * z + std::sqrt(15.0) * s * c[4] * x * y + std::sqrt(5.0) / 2 * s * c[6] * (3 * z * z - 1) + std::sqrt(15.0) / 2 * s * c[8] * (x * x - y * y);
        lo = std::min(lo, (float)v);
    }
    float m = sh::shmin(c); CHECK(nearly(m, lo, 2e-3));
}
""", 'both xy and x^2-y^2 terms nonzero', 'shmin adds the two second order amplitudes instead of taking their length')
S('box-assert-strict', 'C18', [(I+'aabb.hpp', '		assert(areAllTrue(f32x4(size, 1.0f) >= 0.0f));', '		assert(areAllTrue(f32x4(size, 1.0f) > 0.0f));', 2)], r"""
#include "math/aabb.hpp"
using namespace math;
int main() { Aabb a(f32x4(0.0f), f32x4(1.0f)); a.setSize(f32x4(2.0f)); CHECK(a.getMax().getX() == 1.0f); a.setSize(f32x4(2, 0, 2, 0)); CHECK(a.getMax().getY() == a.getMin().getY()); }
""", 'a box that is flat on one axis, in a build with assertions', 'setting the size of a flat box aborts')
S('bvh-split-stack-order', 'C30', [('source/bvh.cpp', '			auto offset = index * Triangle::pointCount;\n			auto i0 = getIndex(indices + (offset    ) * indexSize);\n			auto i1 = getIndex(indices + (offset + 1) * indexSize);\n			auto i2 = getIndex(indices + (offset + 2) * indexSize);\n			auto v0 = f32x4(*(const float3*)(vertices + i0 * vertexSize));\n			auto v1 = f32x4(*(const float3*)(vertices + i1 * vertexSize));\n			auto v2 = f32x4(*(const float3*)(vertices + i2 * vertexSize));\n\n			auto binIndex',
 '			auto offset = index * Triangle::pointCount;\n			auto i0 = getIndex(indices + (offset    ) * indexSize);\n			auto i1 = getIndex(indices + (offset + 1) * indexSize);\n			auto i2 = getIndex(indices + (offset + 1) * indexSize);\n			auto v0 = f32x4(*(const float3*)(vertices + i0 * vertexSize));\n			auto v1 = f32x4(*(const float3*)(vertices + i1 * vertexSize));\n			auto v2 = f32x4(*(const float3*)(vertices + i2 * vertexSize));\n\n			auto binIndex')], r"""
#include "math/bvh.hpp"
#include <cstdlib>
using namespace math;
static float area(Aabb a) { f32x4 e = a.getMax() - a.getMin(); return e.getX() * e.getY() + e.getX() * e.getZ() + e.getY() * e.getZ(); }
int main()
{
    srand(7);
    for (int t = 0; t < 3000; t++)
    {
        float v[36]; uint32 idx[12]; f32x4 lo(1e9f), hi(-1e9f);
        for (int i = 0; i < 36; i++) v[i] = (float)(i % 9 >= 6 ? rand() % 2 * 60 : rand() % 17);
        for (int i = 0; i < 12; i++) { idx[i] = i; f32x4 p(v[i*3], v[i*3+1], v[i*3+2], 0); lo = min(lo, p); hi = max(hi, p); }
        Bvh b((const uint8*)v, (const uint8*)idx, Aabb(lo, hi), 12, 12, 4);
        const auto& n = b.getNodes();
        // every split lowers the surface area cost
        for (size_t k = 0; k < n.size(); k++) if (!n[k].isLeaf())
        {
            auto id = n[k].getLeftNode();
            uint32 cnt[2]; for (int c = 0; c < 2; c++) { uint32 s[16], top = 0, total = 0; s[top++] = id + c; while (top) { auto& m = n[s[--top]]; if (m.isLeaf()) total += m.getPrimitiveCount(); else { s[top++] = m.getLeftNode(); s[top++] = m.getLeftNode() + 1; } } cnt[c] = total; }
            double parent = (double)area(n[k].aabb) * (cnt[0] + cnt[1]);
            double kids = (double)area(n[id].aabb) * cnt[0] + (double)area(n[id + 1].aabb) * cnt[1];
            CHECK(kids < parent);
        }
    }
}
""", 'triangles whose third vertex alone extends the bin', 'bin bounds leave out the third vertex of triangles, so splits may raise the cost', src='source/bvh.cpp source/aabb.cpp')
S('hex-shift-width', 'C24', [(I+'hex.hpp', "		hex[i] = j < sizeof(T) * 8 ? digits[(value >> j) & 0x0f] : '0';", "		hex[i] = j < 32 ? digits[(value >> j) & 0x0f] : '0';")], r"""
#include "math/types.hpp"
#include "math/hex.hpp"
using namespace math;
int main() { CHECK(toHex<uint32>(0x1234ABCD) == "1234ABCD"); CHECK(toHex<uint64>(0x8000000000000001ull) == "8000000000000001"); volatile unsigned char v = 0x5A; CHECK(toHex<uint8>(v, 4) == "005A"); CHECK(toHex<uint64>(0xF234567800000000ull) == "F234567800000000"); }
""", 'a 64 bit value with high digits', 'toHex prints the high digits of 64 bit values as 0')
S('st-bottom-face', 'C29', [(I+'ibl.hpp', '	case 3: dir = float3(-st.x, -1.0f,  st.y); break;', '	case 3: dir = float3( st.x, -1.0f,  st.y); break;')], r"""
#include "math/vector.hpp"
#include "math/ibl.hpp"
using namespace math;
int main() { float3 d = ibl::stToDir(float2(1, 0), 3); CHECK(d.x < 0 && d.y < 0); d = ibl::stToDir(float2(1, 0), 2); CHECK(d.x < 0 && d.y > 0); }
""", 'the bottom cubemap face', 'the bottom face of the cubemap is mirrored')
S('bvh-count-mask', 'C31', [(I+'bvh.hpp', '			min.uints.w = primitiveCount;\n			aabb.setMin(min);', '			min.setW((float)primitiveCount);\n			aabb.setMin(min);'),
  (I+'bvh.hpp', '		uint32 getPrimitiveCount() const noexcept { return aabb.getMin().uints.w; }', '		uint32 getPrimitiveCount() const noexcept { return (uint32)aabb.getMin().getW(); }')], r"""
#include "math/bvh.hpp"
using namespace math;
int main() { Bvh::Node n; for (uint32 c : { 0u, 1u, 7u, 16777216u, 16777217u, 33554433u }) { n.setPrimitiveCount(c); CHECK(n.getPrimitiveCount() == c); CHECK(n.isLeaf() == (c != 0)); } }
""", 'a leaf with more than 2^24 primitives', 'the primitive count of a node is kept as a float', src='source/bvh.cpp source/aabb.cpp')
S('yxy-w-lane', 'C27', [(I+'color-space.hpp', '	auto inv = 1.0f / dot3(xyz, f32x4::one);', '	auto inv = 1.0f / dot4(xyz, f32x4::one);')], r"""
#include "math/color-space.hpp"
using namespace math;
int main() { f32x4 b = xyzToYxy(f32x4(0.5f, 0.3f, 0.2f, 1.0f)); CHECK(nearly(b.getY(), 0.5) && nearly(b.getZ(), 0.3)); }
""", 'a nonzero fourth lane (alpha)', 'xyzToYxy divides by a sum that includes the alpha lane')
S('mip-count-depth', 'C29', [(I+'vector/uint.hpp', '	return calcMipCount(std::max(std::max(size.x, size.y), size.z));', '	return calcMipCount(std::max(size.x, std::min(size.y, size.z)));')], r"""
#include "math/vector.hpp"
using namespace math;
int main() { CHECK(calcMipCount(uint3(8, 2, 2)) == 4); CHECK(calcMipCount(uint3(2, 2, 8)) == 4); CHECK(calcMipCount(uint3(2, 8, 4)) == 4); }
""", 'a volume whose width is not the largest', 'calcMipCount(uint3) does not use the largest dimension')
BV = r"""
#include "math/bvh.hpp"
#include <cstdlib>
using namespace math;
static float area(Aabb a) { f32x4 e = a.getMax() - a.getMin(); return e.getX() * e.getY() + e.getX() * e.getZ() + e.getY() * e.getZ(); }
"""
S('bvh-bin-subset', 'C30', [('source/bvh.cpp', '			auto index = primitives[i];\n			auto aabb = aabbs[index];', '			auto index = i;\n			auto aabb = aabbs[index];')], BV + r"""
int main()
{
    // the far box comes first, so the second split works on a permuted range: {15, 2, 6} must be split between 6 and 15
    float x[4] = { 15, 200, 2, 6 }, w[4] = { 1, 1, 2, 2 }; Aabb a[4]; f32x4 c[4];
    for (int i = 0; i < 4; i++) { a[i] = Aabb(f32x4(x[i] - w[i], 0, 0, 0), f32x4(x[i] + w[i], 1 + i % 2, 1, 0)); c[i] = f32x4(x[i], 0, 0, 0); }
    Bvh b(a, Aabb(f32x4(-10, 0, 0, 0), f32x4(300, 2, 1, 0)), 4, c);
    const auto& n = b.getNodes(); const auto& p = b.getPrimitives(); bool pair = false;
    for (auto& k : n) if (k.isLeaf() && k.getPrimitiveCount() == 2) { uint32 f = k.getFirstPrimitive(); pair |= p[f] + p[f + 1] == 5 && p[f] != 1 && p[f + 1] != 1 && p[f] != 0 && p[f + 1] != 0; }
    CHECK(pair);
}
""", 'a split below the root of a range whose primitives were reordered', 'the split search of boxes bins the wrong primitives below the root', src='source/bvh.cpp source/aabb.cpp')
S('bvh-flat-cost', 'C30', [('source/bvh.cpp', '		auto nodeCost = calcArea(node->aabb.getMin(), node->aabb.getMax()) * primitiveCount;\n\n		if (cost >= nodeCost)\n		{\n			if (nodeStack.empty())\n			{\n				break;\n			}\n			else\n			{\n				node = nodeStack.top();  nodeStack.pop(); continue;', '		auto nodeCost = calcArea(node->aabb.getMin(), node->aabb.getMax()) * lastPrimitive;\n\n		if (cost >= nodeCost)\n		{\n			if (nodeStack.empty())\n			{\n				break;\n			}\n			else\n			{\n				node = nodeStack.top();  nodeStack.pop(); continue;')], BV + r"""
int main()
{
    // one box on the left, three equal boxes with different centroids on the right: splitting those gains nothing
    Aabb a[4]; f32x4 c[4];
    for (int i = 0; i < 4; i++) { float o = i ? 100 : 0; a[i] = Aabb(f32x4(o, 0, 0, 0), f32x4(o + 2, 2, 2, 0)); c[i] = f32x4(o + i, 1, 1, 0); }
    Bvh b(a, Aabb(f32x4(0, 0, 0, 0), f32x4(102, 2, 2, 0)), 4, c);
    CHECK(b.getNodes().size() == 3);
}
""", 'a node after the first primitives whose split gains nothing', 'nodes are split although the surface area cost stays the same', src='source/bvh.cpp source/aabb.cpp')
S('bvh-pending-limit', 'C30', [('source/bvh.cpp', '\t\t\tprimitives.data(), vertexSize, indexSize, getIndex);\n\t\tnode2->setFirstPrimitive(i);\n\t\tnode2->setPrimitiveCount(count2);\n\n\t\tif (count2 > count1)\n\t\t{\n\t\t\tstd::swap(count1, count2);\n\t\t\tstd::swap(node1, node2);\n\t\t}\n\n\t\tif (count1 > 2)\n\t\t{\n\t\t\tnode = node1;\n\t\t\tif (count2 > 2)', '\t\t\tprimitives.data(), vertexSize, indexSize, getIndex);\n\t\tnode2->setFirstPrimitive(i);\n\t\tnode2->setPrimitiveCount(count2);\n\n\t\tif (count2 > count1)\n\t\t{\n\t\t\tstd::swap(count1, count2);\n\t\t\tstd::swap(node1, node2);\n\t\t}\n\n\t\tif (count1 > 2)\n\t\t{\n\t\t\tnode = node1;\n\t\t\tif (count2 > 2 && nodeStack.size() < 2)')], BV + r"""
int main()
{
    // five clusters of three triangles: every cluster is split further
    const int N = 15; float v[9*N]; uint16 idx[3*N];
    for (int q = 0; q < N; q++) for (int j = 0; j < 3; j++)
    {
        float lo[3] = { q % 3 * 3.0f, (q * 5) % 4 * 1.0f, 12.0f * (q / 3) - 30 + q % 3 };
        for (int k = 0; k < 3; k++) v[9*q + 3*j + k] = lo[k] + (k == j ? 1 : 0);
        idx[3*q + j] = 3*q + j;
    }
    Bvh b((const uint8*)v, (const uint8*)idx, Aabb(f32x4(-32.0f), f32x4(32.0f)), 3*N, 12, 2);
    for (auto& n : b.getNodes()) CHECK(!n.isLeaf() || n.getPrimitiveCount() <= 2);
}
""", 'a build in which three or more nodes are waiting to be split', 'the third waiting node is forgotten and stays an oversized leaf', src='source/bvh.cpp source/aabb.cpp')
S('bvh-wide-last-axis', 'C30', [('source/bvh.cpp', '			auto aabb = aabbs[index];\n			auto binIndex = calcBinIndex(centroids[index][a], boundsMin, scale);', '			auto aabb = aabbs[index];\n			auto binIndex = calcBinIndex(centroids[index][a], boundsMin, lastPrimitive - firstPrimitive > BIN_COUNT ? scale * 0.5f : scale);')], BV + r"""
int main()
{
    // sixteen equal boxes in a row, half of them wide apart: the first split is the gap between the halves
    const int N = 16; Aabb a[N];
    for (int q = 0; q < N; q++) { float z = q < 8 ? q * 2.0f : 60.0f + q * 2.0f; a[q] = Aabb(f32x4(0, 0, z, 0), f32x4(1, 1, z + 1, 0)); }
    Bvh b(a, Aabb(f32x4(0, 0, 0, 0), f32x4(1, 1, 91, 0)), N);
    auto& n = b.getNodes(); auto l = n[0].getLeftNode();
    CHECK(n[l].aabb.getMax().getZ() == 15.0f);
}
""", 'a node with more than eight primitives', 'bins of large nodes cover only half of the centroid range, so better splits are missed', src='source/bvh.cpp source/aabb.cpp')
S('traverse-depth-limit', 'C31', [(I+'bvh.hpp', '			nodeStack.push(&nodeData[leftNode + 1]);', '			if (nodeStack.size() < 10)\n				nodeStack.push(&nodeData[leftNode + 1]);')], r"""
#include "math/bvh.hpp"
using namespace math;
struct T : Bvh { using Bvh::nodes; using Bvh::primitives; };
int main()
{
    const int L = 13; T b; b.nodes.resize(2*L - 1); b.primitives.resize(L);
    int node = 0; // left chain: every inner node has a leaf on its right
    for (int q = 0; q < L - 1; q++)
    {
        int l = 2*q + 1; b.nodes[node].setLeftNode(l); b.nodes[node].setPrimitiveCount(0);
        b.nodes[l + 1].setFirstPrimitive(q); b.nodes[l + 1].setPrimitiveCount(1); node = l;
    }
    b.nodes[node].setFirstPrimitive(L - 1); b.nodes[node].setPrimitiveCount(1);
    int visited = 0, leaves = 0;
    b.traverse([&](const Bvh::Node&) { visited++; return true; }, [&](uint32, uint32 c) { leaves += c; });
    CHECK(visited == 2*L - 1); CHECK(leaves == L);
}
""", 'a left-leaning tree deeper than ten levels', 'right children below the tenth level are never visited', src='source/bvh.cpp source/aabb.cpp')
S('packed-index-16bit', 'C23', [(I+'packed-vector.hpp', '			auto& byte = data()[i / 4]; auto shift = (uint8)((i % 4) * 2);', '			auto index = (uint16)i; auto& byte = data()[index / 4]; auto shift = (uint8)((index % 4) * 2);')], r"""
#include "math/packed-vector.hpp"
using namespace math;
int main() { PackedVector<2> v(70000); v.set(65537, 3); CHECK(v.get(65537) == 3); CHECK(v.get(1) == 0); v.set(69999, 2); CHECK(v.get(69999) == 2); }
""", 'a vector with more than 65536 two-bit elements', 'writes beyond element 65535 land at the start of the vector')
