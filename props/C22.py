"""C22: triangles: plane, containment, barycentric coordinates, closest point."""
from vf import H
from C07 import dot, cross
META = dict(
 title='Triangle containment, plane, barycentric and closest point agree',
 statement='For non-degenerate triangles: Plane(triangle) passes through all three vertices with a unit normal along (p1-p0)x(p2-p0); isInside of a point of the triangle plane is true iff its three barycentric weights are all >= 0; calcBarycentric returns weights with sum 1 whose point is the orthogonal projection of the input. '
   'closestPoint(triangle, p) is the projection of p on the plane when that is inside, otherwise the closest of the three edge segments to that projection (hence the closest point of the triangle).',
 quant='all real non-degenerate triangles and points; SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='one missing sign test or a flipped plane offset is invisible for triangles through the origin or points in one edge region',
 files=['include/math/triangle.hpp', 'include/math/plane.hpp', 'include/math/line.hpp'],
 mech=[('isInside, calcBarycentric', 'include/math/triangle.hpp'), ('Plane(const Triangle&), closestPoint(Triangle)', 'include/math/plane.hpp')],
 note='Real arithmetic. That the closest boundary point to an outside projection is the closest point of the triangle is taken from geometry (convexity).')
EXPLAIN = 'The point is parametrised by arbitrary barycentric weights and height (an exact change of variables), so containment is a sign condition on the weights.'
ASSUME = ['real arithmetic', 'triangle not degenerate']
# acute, right, obtuse and sliver triangles, axis-aligned and tilted (rational unit normals), on and off the origin
SHAPES = [(0, 0, 0, 4, 0, 0, 1, 3, 0), (1, 2, 3, 1, 5, 3, 1, 2, 7), (-1, 1, 0, 7, 1, 0, -2, 1, 1), (0, 0, 3, 2, -1, 3, 1, 4, 2), (3, 0, 0, 1, 1, 0, 1, 0, 1), (1, 1, 1, 1, 1, 9, 2, 1, 12)]
BOUNDS = ['closestPoint: quick: six fixed triangle shapes, every point; thorough: every triangle parallel to a coordinate plane; all other claims: every triangle']
sub = lambda a, b: [x - y for x, y in zip(a, b)]
def tri(E): return E.f[:3], E.f[3:6], E.f[6:9]
def normal(E): a, b, c = tri(E); return cross(sub(b, a), sub(c, a))
def harnesses(tier):
    hs = []
    def pre(E): N = normal(E); E.positive(dot(N, N))
    def num(E, n):
        ok = all(E.isnum(x) for x in E.of[:n])
        if not ok: E.true('finite result', False)
        return ok
    T = 'Triangle t(S3(f), S3(f+3), S3(f+6)); '
    # plane
    def spec(E):
        if not num(E, 7): return
        N = normal(E); L = E.sqrt(dot(N, N))
        for j in range(3): E.eq(f'unit normal {j}', E.of[j]*L, N[j])
        for k, v in enumerate(tri(E)): E.eq(f'vertex {k} on the plane', (dot(E.of[:3], v) + E.of[3])*L, E.k(0)); E.eq(f'distance3 of vertex {k}', E.of[4+k]*L, E.k(0))
    hs.append(H('plane_of_triangle', T + 'Plane p(t); P3(of, p.getNormal()); of[3] = p.getDistance(); of[4] = distance3(p, t.p0); of[5] = distance3(p, t.p1); of[6] = distance3(p, t.p2);', spec, nf=9, nof=7, pre=pre))
    # inside
    def derive(E, h=False):
        a, b, c = tri(E); u, v = E.virt[0], E.virt[1]; w = E.k(1) - u - v; f = list(E.f)
        if h: N = normal(E)
        for j in range(3): f[9+j] = u*a[j] + v*b[j] + w*c[j] + (E.virt[2]*N[j] if h else E.k(0))
        E.f = f
    def spec(E):
        u, v = E.virt[0], E.virt[1]; w = E.k(1) - u - v; N = normal(E); NN = dot(N, N)
        E.iff('inside iff all weights >= 0', E.oi[0], E.AND(E.le(0, u), E.le(0, v), E.le(0, w)), slacks=[u, v, w, u*v*NN, v*w*NN, u*w*NN])
    hs.append(H('inside', T + 'oi[0] = isInside(t, S3(f+9));', spec, nf=12, nvirt=2, derive=derive, noi=1, pre=pre))
    # boundary points: one weight exactly zero (input parametrised by two vertices only)
    for k in range(3):
        def derive0(E, k=k):
            vs = tri(E); u = E.virt[0]; a, b = [vs[j] for j in range(3) if j != k]; f = list(E.f)
            for j in range(3): f[9+j] = u*a[j] + (E.k(1) - u)*b[j]
            E.f = f
        def spec(E):
            u = E.virt[0]; w = E.k(1) - u; N = normal(E); NN = dot(N, N)
            E.iff('edge-line point inside iff between the vertices', E.oi[0], E.AND(E.le(0, u), E.le(0, w)), slacks=[u, w, u*w*NN])
        hs.append(H(f'inside_edge_{k}', T + 'oi[0] = isInside(t, S3(f+9));', spec, nf=12, nvirt=1, derive=derive0, noi=1, pre=pre))
    # barycentric
    def spec(E):
        if not num(E, 3): return
        u, v, w = E.of[:3]; a, b, c = tri(E); p = E.f[9:12]
        E.eq('sum', u + v + w, E.k(1))
        N = normal(E); NN = dot(N, N); q = [(u*a[j] + v*b[j] + w*c[j]) for j in range(3)]
        d = sub(p, q)
        E.eq('projection along first edge', dot(d, sub(b, a))*NN, E.k(0)); E.eq('projection along second edge', dot(d, sub(c, a))*NN, E.k(0))
    hs.append(H('barycentric', T + 'P3(of, calcBarycentric(t, S3(f+9)));', spec, nf=12, nof=3, pre=pre))
    # closest point
    def seg(E, a, b, p):
        d = sub(b, a); t = E.min(E.max(dot(sub(p, a), d)/dot(d, d), 0), 1)
        return [a[j] + d[j]*t for j in range(3)]
    def closest(name, fix, tr='quick'):
        def der(E):
            f = list(E.f)
            for k, val in fix.items(): f[k] = f[val[1]] if isinstance(val, tuple) else E.k(val)
            E.f = f; derive(E, True)
        def spec(E):
            if not num(E, 3): return
            a, b, c = tri(E); u, v = E.virt[0], E.virt[1]; w = E.k(1) - u - v; q = E.of[:3]; p = E.f[9:12]
            pp = [u*a[j] + v*b[j] + w*c[j] for j in range(3)]
            ins = E.AND(E.le(0, u), E.le(0, v), E.le(0, w)); N = normal(E); sl = [u, v, w]
            if not E.conc: ins = E.c.branch(ins)      # split the specification by region
            if ins is True:
                for j in range(3): E.eq(f'projection {j}', q[j], pp[j])
                return
            cs = [seg(E, x, y, pp) for x, y in ((a, b), (b, c), (c, a))]; D = lambda x: dot(sub(pp, x), sub(pp, x))
            E.true('one of the edge points', E.OR(*[E.AND(*[E.eqc(q[j], x[j]) for j in range(3)]) for x in cs]), slacks=[y for x in cs for y in sub(q, x)] if 0 else ())
            for k in range(3): E.le_(f'edge {k} is not closer', D(q), D(cs[k]))
        hs.append(H('closest_' + name, T + 'P3(of, closestPoint(t, S3(f+9)));', spec, nf=12, nvirt=3, derive=der, nof=3, pre=pre, tier=tr, budget=200))
    for n, vs in enumerate(SHAPES):
        closest(f'shape{n}', {k: v for k, v in enumerate(vs)})
    closest('family_xy', {0: 0, 1: 0, 2: 0, 3: 1, 4: 0, 5: 0, 8: 0}, 'thorough')
    closest('family_yz', {0: 2, 1: 1, 2: -1, 3: 2, 4: 1, 5: 2, 6: 2}, 'thorough')
    for ax in range(3):
        closest(f'plane{"xyz"[ax]}', {3+ax: ('f', ax), 6+ax: ('f', ax)}, 'thorough')
    return hs
