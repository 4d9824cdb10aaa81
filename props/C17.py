"""C17: frustum culling of boxes."""
from vf import H
META = dict(
 title='isBehindFrustum is true exactly when one plane has the whole box behind it',
 statement='isBehindFrustum returns true iff for some of the given planes all eight box corners (transformed by the model matrix when given) have negative signed distance; so it never culls a box with a point on the non-negative side of every plane, and planes beyond planeCount are ignored.',
 quant='all real planes, boxes, model matrices; plane counts 0..6 (with and without model); SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='a corner listed twice or a missing plane only shows for one box position relative to one plane',
 files=['include/math/aabb.hpp', 'include/math/plane.hpp'], mech=[('isBehindFrustum (two overloads)', 'include/math/aabb.hpp')],
 note='Real arithmetic; corners exactly on a plane count as not behind.')
EXPLAIN = 'All corner distances are polynomials of the symbolic inputs; the returned flag is compared with the definition on every path.'
ASSUME = ['real arithmetic', 'min <= max per axis']
BOUNDS = ['plane count 0..6, with and without model matrix']
def harnesses(tier):
    hs = []
    for model in (0, 1):
        for n in range(0, 7):
            NP = 6*4; tr = 'quick'
            def pre(E): E.assume(E.AND(*[E.le(E.f[24+j], E.f[27+j]) for j in range(3)]))
            def corners(E, model=model):
                mn, mx = E.f[24:27], E.f[27:30]; out = []
                for k in range(8):
                    c = [(mx if k >> j & 1 else mn)[j] for j in range(3)]
                    if model:
                        M = E.f[30:46]; c = [M[r]*c[0]+M[4+r]*c[1]+M[8+r]*c[2]+M[12+r] for r in range(3)]
                    out.append(c)
                return out
            def spec(E, n=n, corners=corners):
                cs = corners(E); any_ = False; sl = []
                for k in range(n):
                    a, b, c, d = E.f[4*k:4*k+4]; ds = [a*x+b*y+c*z+d for x, y, z in cs]; sl += ds
                    any_ = E.OR(any_, E.AND(*[E.lt(x, 0) for x in ds]))
                E.iff('behind', E.oi[0], any_, slacks=sl)
            body = 'Plane pl[6]; for (int k = 0; k < 6; k++) pl[k] = Plane(S3(f+4*k), f[4*k+3], false); Aabb b(S3(f+24), S3(f+27)); '
            body += f'P(oi, isBehindFrustum(pl, {n}, b' + (', SM44(f+30)' if model else '') + '));'
            hs.append(H(f'behind_{"model_" if model else ""}{n}', body, spec, nf=46 if model else 30, noi=1, pre=pre, tier=tr))
    return hs
