"""C20: triangle against box (separating axes)."""
from vf import H
from C07 import dot, cross
META = dict(
 title='Triangle-AABB test equals the complete separating-axis test',
 statement='isAabbIntersected(position, extent, triangle) is false iff one of the thirteen axes (three box normals, the triangle normal, nine edge cross products) strictly separates triangle and box; by the separating-axis theorem that is iff they share no point. '
   'Touching counts as intersecting, and degenerate triangles follow the same rule.',
 quant='all real triangles, box centres and non-negative extents; SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='a wrong component in one of nine similar blocks matters only for triangles separated by that single edge axis',
 files=['source/aabb.cpp', 'include/math/aabb.hpp'], mech=[('isAabbIntersected(position, extent, triangle)', 'source/aabb.cpp')],
 note='Real arithmetic; the separating-axis theorem itself is taken from geometry.')
EXPLAIN = 'All thirteen axis tests are recomputed from vectors in the specification; on every path of the code the returned flag must agree.'
ASSUME = ['real arithmetic', 'extent >= 0']
BOUNDS = ['none beyond the assumptions']
SOURCES = ['source/aabb.cpp']
def harnesses(tier):
    def pre(E): E.assume(E.AND(*[E.le(0, E.f[3+j]) for j in range(3)]))
    def spec(E):
        pos, e = E.f[:3], E.f[3:6]; v = [[E.f[6+3*k+j] - pos[j] for j in range(3)] for k in range(3)]
        f = [[v[(k+1) % 3][j] - v[k][j] for j in range(3)] for k in range(3)]
        one, z = E.k(1), E.k(0)
        box = [[one, z, z], [z, one, z], [z, z, one]]
        axes = [cross(b, g) for b in box for g in f] + box + [cross(f[0], f[1])]
        sep = False; sl = []
        for n, a in enumerate(axes):
            r = e[0]*E.abs(a[0]) + e[1]*E.abs(a[1]) + e[2]*E.abs(a[2])
            ps = [dot(x, a) for x in v]
            if n == 12: ps = ps[:1]
            sl += [p - r for p in ps] + [p + r for p in ps]
            sep = E.OR(sep, E.AND(*[E.lt(r, p) for p in ps]), E.AND(*[E.lt(p, -r) for p in ps]))
        E.iff('intersects', E.oi[0], E.NOT(sep), slacks=sl)
    return [H('triangle_aabb', 'oi[0] = isAabbIntersected(S3(f), S3(f+3), Triangle(S3(f+6), S3(f+9), S3(f+12)));', spec, nf=15, noi=1, pre=pre, opts={'ite': 'sym', 'branch_timeout': 400}, budget=400)]
