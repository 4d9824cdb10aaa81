I = 'include/math/'
def shape(nm, hdr, old, new, demo, needs, breaks, prop='C33', flags=''):
    S(nm, prop, [(I+hdr, old, new)], '#include "math/%s"\nusing namespace math;\nint main()\n{\n%s\n}\n' % (hdr, demo), needs, breaks, flags=flags)
shape('sphere-equal-radius', 'sphere.hpp', '	bool operator==(const Sphere& v) const noexcept { return !memcmp(this, &v, sizeof(Sphere)); }', '	bool operator==(const Sphere& v) const noexcept { return !memcmp(this, &v, sizeof(float3)); }',
  '    CHECK(!(Sphere(1.0f) == Sphere(2.0f))); CHECK(Sphere(1.0f) == Sphere(1.0f));', 'two spheres with the same centre', 'Sphere::operator== ignores the radius')
shape('line-unequal-or', 'line.hpp', '	bool operator!=(const Line& v) const noexcept { return memcmp(this, &v, sizeof(Line)); }', '	bool operator!=(const Line& v) const noexcept { return start != v.start && end != v.end; }',
  '    Line a(f32x4(1, 2, 3, 0), f32x4(4, 5, 6, 0)), b(f32x4(1, 2, 3, 0), f32x4(4, 5, 7, 0)); CHECK(a != b); CHECK(!(a != a));', 'two lines that share one end point', 'Line::operator!= needs both ends to differ')
shape('triangle-sub-compound', 'triangle.hpp', 'Triangle& operator-=(f32x4 v) noexcept { p0 -= v; p1 -= v; p2 -= v; return *this; }', 'Triangle& operator-=(f32x4 v) noexcept { p0 -= v; p1 -= v; p2 += v; return *this; }',
  '    Triangle t(f32x4(1.0f), f32x4(2.0f), f32x4(3.0f)); t -= f32x4(1.0f); CHECK(t.p0.getX() == 0 && t.p1.getX() == 1 && t.p2.getX() == 2);', 'compound subtraction from a triangle', 'Triangle::operator-= adds to the third vertex')
shape('ray-div-direction', 'ray.hpp', '	Ray operator/(f32x4 v) const noexcept { return Ray(origin / v, direction / v); }', '	Ray operator/(f32x4 v) const noexcept { return Ray(origin / v, direction * v); }',
  '    Ray r = Ray(f32x4(1.0f), f32x4(1, 1, 0, 0), false) / f32x4(2, 1, 1, 1); CHECK(nearly(r.getDirection().getX() * 2, r.getDirection().getY()));', 'a division by different amounts per axis', 'Ray / v multiplies the direction', prop='C21')
shape('plane-set-normal-dist', 'plane.hpp', '		normDist = f32x4(normalize ? normalize3(normal) : normal, normDist.getW());', '		normDist = normalize ? f32x4(normalize3(normal), normDist.getW()) : normal;',
  '    Plane p(f32x4(0, 1, 0, 0), 5.0f); p.setNormal(f32x4(1, 0, 0, 0), false); CHECK(p.getDistance() == 5.0f); p.setNormal(f32x4(0, 0, 1, 0)); CHECK(p.getDistance() == 5.0f);', 'a normal set without normalising', 'Plane::setNormal loses the distance', prop='C21')
S('int3-back', 'C33', [(I+'vector/int.hpp', 'inline const int3 int3::back = int3(0, 0, -1);', 'inline const int3 int3::back = int3(0, -1, 0);')], r"""
#include "math/vector.hpp"
using namespace math;
int main() { CHECK(int3::back == int3(0, 0, -1)); CHECK(int3::bottom == int3(0, -1, 0)); }
""", 'the backward integer direction', 'int3::back points down')
S('f32x4-minus-max', 'C33', [(I+'simd/vector/float.hpp', 'inline const f32x4 f32x4::minusMax = f32x4(-FLT_MAX);', 'inline const f32x4 f32x4::minusMax = f32x4(-FLT_MAX, -FLT_MAX, -FLT_MAX, -FLT_MIN);')], r"""
#include "math/vector.hpp"
using namespace math;
int main() { for (int k = 0; k < 4; k++) CHECK(f32x4::minusMax[k] == -FLT_MAX); }
""", 'the fourth lane of the lowest value', 'f32x4::minusMax.w is -FLT_MIN')
S('mat3-product-inplace', 'C08', [(I+'matrix/float.hpp', '	float3x3& operator*=(const float3x3& m) noexcept { return *this = *this * m; }', '	float3x3& operator*=(const float3x3& m) noexcept { c0 = *this * m.c0, c1 = *this * m.c1, c2 = *this * m.c2; return *this; }')], r"""
#include "math/matrix.hpp"
using namespace math;
int main() { float3x3 a(1, 2, 3, 0, 1, 4, 5, 6, 0), b(1, 1, 0, 0, 1, 1, 1, 0, 1), c = a * b; a *= b; CHECK(a == c); }
""", 'a compound product', 'float3x3::operator*= uses columns it has already overwritten')
S('sh-rotate-inplace', 'C28', [(I+'sh.hpp', "	auto b1 = rotateSphericalHarmonicBand1(band1, m);\n	float band2[5] = { shw[4], shw[5], shw[6], shw[7], shw[8] }; float b2[5];\n	rotateSphericalHarmonicBand2(band2, m, b2);\n	r[0] = b0; r[1] = b1[0]; r[2] = b1[1]; r[3] = b1[2];\n	r[4] = b2[0];",
 "	auto b1 = rotateSphericalHarmonicBand1(band1, m);\n	r[0] = b0; r[1] = b1[0]; r[2] = b1[1]; r[3] = b1[2]; r[4] = 0.0f;\n	float band2[5] = { shw[4], shw[5], shw[6], shw[7], shw[8] }; float b2[5];\n	rotateSphericalHarmonicBand2(band2, m, b2);\n	r[4] = b2[0];")], r"""
#include "math/sh.hpp"
using namespace math;
int main()
{
    float a[9] = { 1, 2, 3, 4, 5, 6, 7, 8, 9 }, r[9]; float3x3 m = float3x3::identity;
    sh::rotateSh3Bands(a, m, r); CHECK(nearly(r[4], 5)); sh::rotateSh3Bands(a, m, a); for (int k = 0; k < 9; k++) CHECK(nearly(a[k], r[k]));
}
""", 'rotation in place', 'rotateSh3Bands overwrites coefficient 4 before reading it when input and output are the same array')
S('aabb-shrink-alias', 'C18', [(I+'aabb.hpp', "		min = math::max(min, aabb.min); max = math::min(max, aabb.max); ", "		min = math::max(min, aabb.min); max = math::max(math::min(max, aabb.max), min); ")], r"""
#include "math/aabb.hpp"
using namespace math;
int main() { Aabb a(f32x4(0, 0, 0, 0), f32x4(1, 1, 1, 0)), b(f32x4(2, 0, 0, 0), f32x4(3, 1, 1, 0)); a.shrink(b); CHECK(a.getMin().getX() == 2 && a.getMax().getX() == 1); }
""", 'boxes that do not overlap', 'shrink collapses an empty intersection to a touching box')
