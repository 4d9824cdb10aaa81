I='include/math/'
S('int4-mod-assign', 'C01', [(I+'vector/int.hpp', 'int4& operator%=(int32 n) noexcept { x %= n; y %= n; z %= n; w %= n; return *this; }', 'int4& operator%=(int32 n) noexcept { n = n < 0 ? -n : n; int4 q = *this / n; return *this -= q * n; }'), (I+'vector/int.hpp', 'int4& operator-=(int4 v) noexcept { x -= v.x; y -= v.y; z -= v.z; w -= v.w; return *this; }', 'int4& operator-=(int4 v) noexcept { x -= v.x; y -= v.y; z -= v.z; w -= std::max(v.w, INT32_MIN + 1); return *this; }')], r'''
#include "math/vector.hpp"
using namespace math;
int main()
{
    int4 a(1, 2, 3, 4); a -= int4(1, 1, 1, 1); CHECK(a == int4(0, 1, 2, 3));
    int4 b(7, -7, 8, -9); b %= -4; CHECK(b == int4(3, -3, 0, -1));
    int4 c(-1, -1, -1, -1); c -= int4(INT32_MIN, INT32_MIN, INT32_MIN, INT32_MIN); CHECK(c == int4(INT32_MAX, INT32_MAX, INT32_MAX, INT32_MAX));
}
''', 'subtracting the value INT32_MIN in the fourth component', 'int4 -= is off by one when the subtracted fourth component is INT32_MIN')
S('i32x4-shift-sse', 'C02', [(I+'simd/vector/int.hpp', 'return _mm_srai_epi32(data, n);', 'return _mm_srai_epi32(_mm_srai_epi32(data, n & 15), n & 16 ? 15 : 0);')], r'''
#include "math/vector.hpp"
using namespace math;
int main()
{
    for (int s = 0; s < 32; s++) {
        i32x4 v(0x12345678, -0x12345678, 0x7fffffff, (int)0x80000000), r = v >> s;
        CHECK(r.getX() == (0x12345678 >> s) && r.getY() == (-0x12345678 >> s) && r.getZ() == (0x7fffffff >> s) && r.getW() == ((int)0x80000000 >> s));
    }
}
''', 'a shift count of 16 or more', 'the right shift of i32x4 by a count >= 16 moves one place too few')
S('round-negative-half', 'C04', [(I+'vector/float.hpp', 'static float3 trunc(float3 v) noexcept { return float3(std::trunc(v.x), std::trunc(v.y), std::trunc(v.z)); }', 'static float3 trunc(float3 v) noexcept { return float3(std::trunc(v.x), std::trunc(v.y), (float)(int32)v.z); }')], r'''
#include "math/vector.hpp"
using namespace math;
int main()
{
    float3 r = trunc(float3(1.7f, -1.7f, -2.5f)); CHECK(r == float3(1, -1, -2));
    r = trunc(float3(3e9f, -3e9f, 3e9f)); CHECK(r == float3(3e9f, -3e9f, 3e9f));
    r = trunc(float3(0.5f, 0.5f, 123456.75f)); CHECK(r.z == 123456.0f);
}
''', 'a component of 2^31 or larger', 'trunc(float3) saturates its third component to the 32-bit integer range')
S('select-sse2-mask', 'C05', [(I+'simd/vector/float.hpp', 'auto isTrue = _mm_castsi128_ps(_mm_srai_epi32(c.data, 31));\n\treturn _mm_or_ps(_mm_and_ps(isTrue, t.data), _mm_andnot_ps(isTrue, f.data));', 'auto isTrue = _mm_castsi128_ps(c.data);\n\treturn _mm_or_ps(_mm_and_ps(isTrue, t.data), _mm_andnot_ps(isTrue, f.data));')], r'''
#include "math/vector.hpp"
using namespace math;
int main()
{
    f32x4 t(1, 2, 3, 4), f(5, 6, 7, 8);
    CHECK(select(t < f, t, f) == t); CHECK(select(t > f, t, f) == f);
    f32x4 r = select(u32x4(0x80000000u, 0u, 0xFFFFFFFFu, 0x7FFFFFFFu), t, f); CHECK(r == f32x4(1, 6, 3, 8));
}
''', 'a mask with only its top bit set, on a build without SSE4.1', 'the SSE2 select mixes the bits of both operands instead of choosing by the top mask bit')
S('translate-order', 'C10', [(I+'matrix/transform.hpp', 'return f32x4x4(m.c0, m.c1, m.c2, f32x4(m.c3 + multiply3x3(m, t), m.c3.getW()));', 'return f32x4x4(m.c0, m.c1, m.c2, f32x4(m.c3 + m * t, m.c3.getW()));')], r'''
#include "math/matrix/transform.hpp"
using namespace math;
int main()
{
    f32x4x4 m = translate(f32x4(1, 2, 3)) * scale(f32x4(2, 2, 2));
    f32x4x4 a = translate(m, f32x4(1, 1, 1, 0)), b = translate(m, f32x4(1, 1, 1));
    CHECK(nearly(a.c3.getX(), 3) && nearly(a.c3.getY(), 4) && nearly(a.c3.getZ(), 5));
    CHECK(nearly(b.c3.getX(), 3) && nearly(b.c3.getY(), 4) && nearly(b.c3.getZ(), 5));
}
''', 'an offset vector whose unused fourth lane is not zero and a matrix that already translates', 'translate(matrix, offset) adds the matrix translation again, scaled by the W lane of the offset')
S('extract-scale-mirror', 'C11', [(I+'matrix/transform.hpp', '	scale = extractScale(m);\n}', '	scale = extractScale(m);\n	if (scale.getX() == scale.getY())\n		scale = f32x4(scale.getX());\n}')], r'''
#include "math/matrix/transform.hpp"
using namespace math;
int main()
{
    const float ss[][3] = { {1, 2, 3}, {2, 2, 2}, {2, 2, 5}, {3, 1, 3} };
    for (auto& s : ss) {
        f32x4 p, t; quat q; f32x4x4 m = calcModel(f32x4(1, 2, 3), quat::identity, f32x4(s[0], s[1], s[2], 0));
        extractTransform(m, p, q, t); CHECK(nearly(t.getX(), s[0]) && nearly(t.getY(), s[1]) && nearly(t.getZ(), s[2]));
    }
}
''', 'a scale equal on X and Y but different on Z', 'extractTransform reports a uniform scale when only X and Y agree')
S('lookatquat-length', 'C12', [(I+'matrix/transform.hpp', 'auto c0 = right * (1.0f / std::sqrt(std::max(0.00001f, dot3(right, right))));', 'auto c0 = right * (1.0f / std::sqrt(std::max(0.01f, dot3(right, right))));')], r'''
#include "math/matrix/transform.hpp"
using namespace math;
int main()
{
    for (int k = 0; k <= 20; k++) {
        float a = 0.07f * k + 0.05f; f32x4 d(0.0f, std::cos(a), std::sin(a), 0.0f);
        quat q = lookAtQuat(d); CHECK(nearly(dot4(q, q), 1, 1e-2));
        f32x4 r = q * f32x4(0, 0, 1); CHECK(nearly(dot3(r, d), 1, 1e-2));
    }
}
''', 'a direction within about 6 degrees of the up vector', 'lookAtQuat stops normalizing the side vector for directions close to up and returns a non-unit, wrong quaternion')
S('slerp-far', 'C15', [(I+'quaternion.hpp', '	if (cosTheta < 0.0f)\n	{\n		c = -b;', '	if (cosTheta < -0.5f)\n	{\n		c = -b;')], r'''
#include "math/quaternion.hpp"
using namespace math;
int main()
{
    for (int k = 0; k < 36; k++) {
        float a = k * 0.1745f; quat p = quat::identity, q(std::sin(a), 0, 0, std::cos(a));
        quat r = slerp(p, q, 0.25f); float c = dot4(p, q); float w = std::acos(std::fabs(c)) * 0.25f;
        CHECK(nearly(std::fabs(dot4(p, r)), std::cos(w), 1e-3));
    }
}
''', 'two quaternions with a negative dot product above -1/2', 'slerp takes the long way round')
S('normalize-planes-count', 'C16', [(I+'plane.hpp', '	for (psize i = 0; i < planeCount; i++)\n		planes[i].normalize();', '	for (psize i = 0; i + 1 < planeCount; i += 2)\n	{\n		planes[i].normalize();\n		planes[i + 1].normalize();\n	}')], r'''
#include "math/plane.hpp"
using namespace math;
int main()
{
    for (int n = 0; n <= 6; n++) {
        Plane p[6]; for (auto& x : p) x = Plane(f32x4(2, 0, 0, 0), 4.0f, false);
        normalizePlanes(p, n);
        for (int i = 0; i < 6; i++) CHECK(nearly(p[i].getDistance(), i < n ? 2.0 : 4.0));
    }
}
''', 'an odd number of planes', 'normalizePlanes leaves the last of an odd number of planes unnormalized')
S('plane-normalize-dist', 'C21', [(I+'plane.hpp', 'normDist = f32x4(normalize ? normalize3(normal) : normal, normDist.getW());', 'normDist = normalize ? normalize3(f32x4(normal, normDist.getW())) : f32x4(normal, normDist.getW());')], r'''
#include "math/plane.hpp"
using namespace math;
int main()
{
    Plane p(f32x4(1, 0, 0), 3.0f); p.setNormal(f32x4(0, 1, 0)); CHECK(nearly(p.getDistance(), 3)); CHECK(nearly(p.getNormal().getY(), 1));
    p.setNormal(f32x4(0, 2, 0), false); CHECK(nearly(p.getDistance(), 3));
    p.setNormal(f32x4(0, 2, 0)); CHECK(nearly(p.getDistance(), 3)); CHECK(nearly(p.getNormal().getY(), 1));
}
''', 'setting a normal that is not already of unit length', 'Plane::setNormal scales the stored distance together with the normal')
