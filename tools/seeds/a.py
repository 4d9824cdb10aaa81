I='include/math/'
S('aabb-triangle-axis', 'C20', [('source/aabb.cpp', 'r = extX * std::abs(f1Z) + extZ * std::abs(f1X);', 'r = extX * std::abs(f1Z) + extZ * std::abs(f1Y);')], r'''
#include "math/aabb.hpp"
using namespace math;
// reference: clip the triangle against the six box planes
static bool clip(double ex, double ey, double ez, const double (*t)[3])
{
    double p[32][3], q[32][3]; int n = 3; double e[3] = { ex, ey, ez };
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) p[i][k] = t[i][k];
    for (int a = 0; a < 3; a++) for (int s = -1; s <= 1; s += 2) {
        int m = 0;
        for (int i = 0; i < n; i++) {
            double *u = p[i], *v = p[(i + 1) % n], du = e[a] - s*u[a], dv = e[a] - s*v[a];
            if (du >= 0) { for (int k = 0; k < 3; k++) q[m][k] = u[k]; m++; }
            if ((du > 0 && dv < 0) || (du < 0 && dv > 0)) { double w = du/(du - dv); for (int k = 0; k < 3; k++) q[m][k] = u[k] + (v[k] - u[k])*w; m++; }
        }
        n = m; for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) p[i][k] = q[i][k];
        if (!n) return false;
    }
    return true;
}
int main()
{
    unsigned r = 12345; auto rnd = [&] { r = r*1664525u + 1013904223u; return (double)((int)(r >> 16) % 800) / 100.0 - 4.0; };
    for (int i = 0; i < 300000; i++) {
        double t[3][3]; for (auto& a : t) for (double& x : a) x = rnd();
        if (clip(1.01, 1.51, 1.26, t) != clip(0.99, 1.49, 1.24, t)) continue;   // too close to call
        bool want = clip(1, 1.5, 1.25, t);
        Triangle tr(f32x4(t[0][0], t[0][1], t[0][2]), f32x4(t[1][0], t[1][1], t[1][2]), f32x4(t[2][0], t[2][1], t[2][2]));
        CHECK(isAabbIntersected(f32x4::zero, f32x4(1.0f, 1.5f, 1.25f), tr) == want);
    }
}
''', 'a triangle separated from the box only by the cross axis of its second edge with Y (or one whose second edge has a large Y component)',
 'the separating-axis test uses a wrong projected radius for one of the nine edge axes', src='source/aabb.cpp')
S('extract-quat-z', 'C11', [(I+'matrix/transform.hpp', '(m.c1.getZ() + m.c2.getY()) * mult, biggestVal, (m.c0.getY() - m.c1.getX()) * mult);', '(m.c1.getZ() + m.c2.getY()) * mult, biggestVal, (m.c1.getX() - m.c0.getY()) * mult);')], r'''
#include "math/matrix/transform.hpp"
using namespace math;
int main()
{
    const float qs[][4] = { {0.1f, 0.2f, 0.3f, 0.9f}, {0.9f, 0.2f, -0.3f, 0.1f}, {0.2f, 0.9f, 0.1f, -0.3f}, {0.1f, 0.3f, 0.9f, 0.2f}, {-0.2f, 0.1f, 0.8f, -0.3f} };
    for (auto& a : qs) {
        quat q = normalize(quat(a[0], a[1], a[2], a[3])), r = extractQuat(rotate(q));
        CHECK(std::fabs(dot4(q, r)) > 0.9999f);
    }
}
''', 'a rotation by more than 120 degrees about an axis close to Z', 'extractQuat (and extractTransform) returns a quaternion of another rotation when z is the largest component')
S('calc-model-scale-shortcut', 'C10', [(I+'matrix/transform.hpp', 'return scale == f32x4::one ? translate(', 'return areAnyTrue(equal(scale, f32x4::one)) ? translate(')], r'''
#include "math/matrix/transform.hpp"
using namespace math;
int main()
{
    quat q = normalize(quat(0.1f, 0.2f, 0.3f, 0.9f)); f32x4 p(1.0f, 2.0f, 3.0f);
    const float ss[][4] = { {1, 1, 1, 1}, {2, 3, 4, 0}, {2, 2, 2, 2}, {1, 3, 1, 0}, {2, 1, 5, 0} };
    for (auto& s : ss) {
        f32x4x4 m = calcModel(p, q, f32x4(s[0], s[1], s[2], s[3])); f32x4x4 r = rotate(q);
        CHECK(nearly(length3(m.c0), s[0]) && nearly(length3(m.c1), s[1]) && nearly(length3(m.c2), s[2]));
        CHECK(nearly(dot3(m.c1, r.c1), s[1]) && nearly(m.c3.getX(), 1) && nearly(m.c3.getY(), 2) && nearly(m.c3.getZ(), 3));
    }
}
''', 'a scale that is 1 on one axis and different on another', 'calcModel drops the whole scale when any scale component equals one')
S('ray-touching-parallel', 'C19', [(I+'aabb.hpp', "auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin > aabb.getMax());\n\tauto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (ray.getParallel() & noParallelOverlap);\n\tnoIntersection |= noIntersection.splatY();\n\tnoIntersection |= noIntersection.splatZ();\n\treturn select(", "auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin >= aabb.getMax());\n\tauto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (ray.getParallel() & noParallelOverlap);\n\tnoIntersection |= noIntersection.splatY();\n\tnoIntersection |= noIntersection.splatZ();\n\treturn select(")], r'''
#include "math/aabb.hpp"
using namespace math;
int main()
{
    Aabb b(f32x4(-1.0f, -2.0f, -3.0f), f32x4(1.0f, 2.0f, 3.0f));
    for (float y = -2.0f; y <= 2.0f; y += 0.5f) {
        Ray r(f32x4(-5.0f, y, 0.5f), f32x4(1.0f, 0.0f, 0.0f));
        CHECK(nearly(raycast1(b, r), 4.0)); CHECK(nearly(raycast2(b, r).x, 4.0)); CHECK(raycast(b, r));
    }
    Ray m(f32x4(-5.0f, 2.5f, 0.5f), f32x4(1.0f, 0.0f, 0.0f)); CHECK(raycast1(b, m) == FLT_MAX);
}
''', 'a ray parallel to an axis whose origin lies exactly on the maximum face of the box', 'raycast1 reports a miss for a ray running inside the maximum face, raycast2 a hit')
S('packed2-neighbour', 'C23', [(I+'packed-vector.hpp', '((value & (uint8)0x03) << shift)', '(value << shift)')], r'''
#include "math/packed-vector.hpp"
using namespace math;
int main()
{
    PackedVector<2> v(8);
    for (int i = 0; i < 8; i++) v.set(i, i & 3);
    v.set(2, 4 + 1); CHECK(v.get(2) == 1); CHECK(v.get(3) == 3); CHECK(v.get(1) == 1);
    v.set(3, 1); v.set(2, 0xFE); CHECK(v.get(2) == 2); CHECK(v.get(3) == 1); CHECK(v.get(4) == 0);
}
''', 'storing a value wider than two bits next to an element whose bits are still clear', 'an out-of-range value written to a 2-bit PackedVector leaks into the following elements of the same byte')
S('orthorevz-height', 'C13', [(I+'matrix/projection.hpp', '0.0f, -2.0f / (height.y - height.x), 0.0f, (height.y + height.x) / (height.y - height.x),\n\t\t0.0f, 0.0f, 1.0f / (depth.x - depth.y)', '0.0f, -2.0f / (height.y - height.x), 0.0f, -(height.y + height.x) / (height.y - height.x),\n\t\t0.0f, 0.0f, 1.0f / (depth.x - depth.y)')], r'''
#include "math/matrix/projection.hpp"
using namespace math;
int main()
{
    const float h[][2] = { {-1, 1}, {-2, 2}, {0, 4}, {-1, 5} };
    for (auto& a : h) for (int k = 0; k < 2; k++) {
        float4x4 m = k ? calcOrthoProj(float2(-1, 1), float2(a[0], a[1]), float2(0, 10)) : calcOrthoProjRevZ(float2(-1, 1), float2(a[0], a[1]), float2(0, 10));
        float4 lo = m * float4(0, a[0], 5, 1), hi = m * float4(0, a[1], 5, 1);
        CHECK(nearly(lo.y, 1)); CHECK(nearly(hi.y, -1));
    }
}
''', 'an orthographic volume that is not vertically symmetric', 'calcOrthoProjRevZ maps an off-centre height range to the wrong clip interval')
S('aabb-shrink-max', 'C18', [(I+'aabb.hpp', 'min = math::max(min, aabb.min); max = math::min(max, aabb.max); ', 'min = math::max(min, aabb.min); max = math::min(max, math::max(aabb.max, min)); ')], r'''
#include "math/aabb.hpp"
using namespace math;
int main()
{
    Aabb a(f32x4(0.0f), f32x4(4.0f)), b(f32x4(1.0f), f32x4(3.0f)); Aabb c = a; c.shrink(b); CHECK(c == b);
    Aabb d(f32x4(5.0f, 1.0f, 1.0f, 0.0f), f32x4(6.0f, 2.0f, 2.0f, 1.0f)), e(f32x4(0.0f), f32x4(4.0f)); e.shrink(d);
    CHECK(e.getMin().getX() == 5.0f && e.getMax().getX() == 4.0f && e.getMax().getY() == 2.0f);
    Aabb f(f32x4(0.0f), f32x4(4.0f)); f.shrink(Aabb(f32x4(-3.0f), f32x4(-1.0f))); CHECK(f.getMax().getY() == -1.0f);
}
''', 'two boxes that do not overlap on some axis', 'shrink (box intersection) no longer yields an inverted, empty box for disjoint boxes: it leaves a degenerate non-empty one')
S('version-index', 'C24', [(I+'version.hpp', 'constexpr bool operator>=(Version v) const noexcept { return (uint32)*this >= (uint32)v; }', 'constexpr bool operator>=(Version v) const noexcept { return ((uint32)*this >> 8u) >= ((uint32)v >> 8u); }')], r'''
#include "math/version.hpp"
using namespace math;
int main()
{
    Version a(1, 2, 3, 4), b(1, 2, 3, 5), c(1, 3, 0, 0);
    CHECK(a < b && b > a && !(a >= b) && b >= a && c >= b && a >= a && !(a > b) && a <= b && a != b);
}
''', 'two versions that differ only in the build part', 'operator>= ignores the build part and disagrees with operator<')
