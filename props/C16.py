"""C16: frustum plane extraction and plane basics."""
from vf import H
from C07 import dot
META = dict(
 title='Extracted frustum planes bound exactly the clip volume',
 statement='For every view-projection matrix M and point p, the six planes of extractFrustumPlanes have signed distances clip.w+clip.x, clip.w-clip.x, clip.w-clip.y, clip.w+clip.y, clip.z and clip.w-clip.z of M*(p,1), so a point is on the positive side of all planes iff it lies in the Vulkan clip volume. '
   'normalizePlanes makes every normal unit length without moving the plane or changing sides, for any plane count up to 6 and no other element.',
 quant='all real matrices and points; all plane sets of 0..6 planes with nonzero normals; SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='a swapped row or a missed translation term only culls wrongly for off-centre cameras',
 files=['include/math/plane.hpp', 'include/math/simd/matrix/float.hpp'], mech=[('extractFrustumPlanes, normalizePlanes, distance3, Plane::normalize', 'include/math/plane.hpp')],
 note='Real arithmetic. Plane order: left, right, bottom, top (Y flipped for Vulkan), z >= 0, z <= w.')
EXPLAIN = 'Matrix and point are symbolic; each plane distance is compared with the clip-space polynomial.'
ASSUME = ['real arithmetic']
BOUNDS = ['plane count 0..6']
def harnesses(tier):
    hs = []
    def spec(E):
        M, p = E.f[:16], E.f[16:19]
        cl = [M[r]*p[0]+M[4+r]*p[1]+M[8+r]*p[2]+M[12+r] for r in range(4)]; x, y, z, w = cl
        for k, e in enumerate((w+x, w-x, w-y, w+y, z, w-z)): E.eq(f'plane {k} distance', E.of[k], e)
    hs.append(H('frustum', 'Plane pl[6]; extractFrustumPlanes(SM44(f), pl); for (int k = 0; k < 6; k++) of[k] = distance3(pl[k], S3(f+16));', spec, nf=19, nof=6))
    for n in range(0, 7):
        def pre(E, n=n):
            for k in range(n): E.assume(E.lt(0, dot(E.f[4*k:4*k+3], E.f[4*k:4*k+3])))
        def spec(E, n=n):
            for k in range(6):
                pl, o = E.f[4*k:4*k+4], E.of[4*k:4*k+4]
                if not all(E.isnum(x) for x in o): E.true('finite', False); continue
                l = E.sqrt(dot(pl[:3], pl[:3])) if k < n else E.k(1)
                for j in range(4): E.eq(f'plane {k} component {j}', o[j]*l, pl[j])
        hs.append(H(f'normalizePlanes_{n}', 'Plane pl[6]; for (int k = 0; k < 6; k++) pl[k] = Plane(S3(f+4*k), f[4*k+3], false); '
            f'normalizePlanes(pl, {n}); for (int k = 0; k < 6; k++) {{ P3(of+4*k, pl[k].getNormal()); of[4*k+3] = pl[k].getDistance(); }}', spec, nf=24, nof=24, pre=pre))
    return hs
