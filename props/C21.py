"""C21: spheres, planes, lines and rays: distances, closest points, containment."""
from vf import H
from C07 import dot
from fractions import Fraction as Fr
META = dict(
 title='Closest points and distances of planes, lines, rays and spheres are exact',
 statement='closestPoint of a line segment, ray (non-degenerate), unit-normal plane or sphere lies on the primitive and no other point of it is closer; the parameter returned for lines is the unclamped projection, and distance3 is normal.p + d. '
   'Sphere tests decide |c-p| < r (point), |c1-c2| <= r1+r2 (sphere) and distance to box < r (AABB); setters change only their field, normalising constructors keep direction with unit length, Ray::getParallel marks the direction components of size <= 1e-20 however the direction was set, and operators act on both end points of lines and on origin and direction of rays (the binary ones normalise it).',
 long=True,
 quant='all real inputs (non-degenerate lines and rays, unit plane normals, radius >= 0); SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='clamping at the wrong end or a missing square only shows for points beyond an end or for one ordering of radii',
 files=['include/math/line.hpp', 'include/math/ray.hpp', 'include/math/plane.hpp', 'include/math/sphere.hpp'],
 mech=[('closestPoint(Line/Ray)', 'include/math/line.hpp, include/math/ray.hpp'), ('struct Sphere, isInside, isIntersected, closestPoint', 'include/math/sphere.hpp'), ('struct Plane, distance3, closestPoint', 'include/math/plane.hpp')],
 note='Real arithmetic. Optimality uses the variational inequality of a closest point on a convex set.')
EXPLAIN = 'Each result is characterised by membership plus the variational inequality against symbolic inputs, on every clamping path.'
ASSUME = ['real arithmetic', 'line/ray directions not zero', 'plane normals of unit length where the code documents it', 'radius >= 0']
BOUNDS = ['none beyond the assumptions']
def harnesses(tier):
    hs = []
    sub = lambda a, b: [x - y for x, y in zip(a, b)]
    def num(E, n):
        ok = all(E.isnum(x) for x in E.of[:n])
        if not ok: E.true('finite result', False)
        return ok
    # --- line
    def pre(E): d = sub(E.f[3:6], E.f[:3]); E.assume(E.lt(0, dot(d, d)))
    def spec(E):
        if not num(E, 7): return
        a, b, p = E.f[:3], E.f[3:6], E.f[6:9]; d = sub(b, a); dd = dot(d, d); t = E.of[6]
        E.eq('returned t is the projection', t*dd, dot(sub(p, a), d))
        for o, nm in ((0, 'closest'), (3, 'closest with t')):
            q = E.of[o:o+3]
            for j in range(3):
                E.eq(f'{nm}: on the segment {j}', q[j], a[j] + d[j]*E.min(E.max(t, 0), 1))
            E.le_(f'{nm}: start is not closer', dot(sub(p, q), sub(a, q)), 0); E.le_(f'{nm}: end is not closer', dot(sub(p, q), sub(b, q)), 0)
    hs.append(H('line', 'Line l(S3(f), S3(f+3)); float t; P3(of, closestPoint(l, S3(f+6))); P3(of+3, closestPoint(l, S3(f+6), t)); of[6] = t;', spec, nf=9, nof=7, pre=pre))
    def spec(E):
        a, b = E.f[:3], E.f[3:6]; d = sub(b, a); L = E.sqrt(dot(d, d))
        if not num(E, 6): return
        for j in range(3):
            E.eq(f'getDirection(false) {j}', E.of[j], d[j]); E.eq(f'getDirection {j}', E.of[3+j]*L, d[j])
    hs.append(H('line_direction', 'Line l(S3(f), S3(f+3)); P3(of, l.getDirection(false)); P3(of+3, l.getDirection());', spec, nf=6, nof=6, pre=pre))
    for nm, op, fn in (('add', '+', lambda a, b: a + b), ('sub', '-', lambda a, b: a - b), ('mul', '*', lambda a, b: a * b), ('div', '/', lambda a, b: a / b)):
        def pre2(E, nm=nm):
            if nm == 'div': E.assume(E.AND(*[E.lt(0, E.f[6+j]) for j in range(3)]))
        def spec(E, fn=fn):
            for o in (0, 6):
                for j in range(6): E.eq(f'{"binary" if not o else "compound"} {j}', E.of[o+j], fn(E.f[j], E.f[6+j%3]))
        hs.append(H('line_' + nm, f'Line l(S3(f), S3(f+3)), m = l; f32x4 v = S3(f+6); Line r = l {op} v; m {op}= v; P3(of, r.start); P3(of+3, r.end); P3(of+6, m.start); P3(of+9, m.end);', spec, nf=9, nof=12, pre=pre2))
    # --- ray
    def preR(E): E.assume(E.lt(0, dot(E.f[3:6], E.f[3:6])))
    def spec(E):
        if not num(E, 3): return
        o, d, p, q = E.f[:3], E.f[3:6], E.f[6:9], E.of[:3]; t = dot(sub(p, o), d)/dot(d, d)
        for j in range(3): E.eq(f'on the ray {j}', q[j], o[j] + d[j]*E.max(t, 0))
        E.le_('origin is not closer', dot(sub(p, q), sub(o, q)), 0); E.le_('farther points are not closer', dot(sub(p, q), d), 0)
    hs.append(H('ray', 'Ray r(S3(f), S3(f+3), false); P3(of, closestPoint(r, S3(f+6)));', spec, nf=9, nof=3, pre=preR))
    def spec(E):
        if not num(E, 12): return
        d = E.f[3:6]; L = E.sqrt(dot(d, d))
        for k, nm in ((0, 'constructor'), (3, 'setDirection'), (6, 'normalize')):
            for j in range(3): E.eq(f'{nm} {j}', E.of[k+j]*L, d[j])
        for j in range(3): E.eq(f'origin {j}', E.of[9+j], E.f[j])
    hs.append(H('ray_normalize', 'Ray r(S3(f), S3(f+3)), s, n(S3(f), S3(f+3), false); s.setDirection(S3(f+3)); n.normalize(); P3(of, r.getDirection()); P3(of+3, s.getDirection()); P3(of+6, n.getDirection()); P3(of+9, r.origin);', spec, nf=6, nof=12, pre=preR))
    def spec(E):
        for k in range(4):       # setDirection, constructor, copy with the direction set afterwards, compound operator
            for j in range(3):
                d = E.f[j] if k < 3 else E.fmul(E.f[j], E.f[3+j]); a = E.w(d) & 0x7fffffff
                E.true(f'parallel {k} {j}', E.IFF(E.oi[3*k+j].ne(0), a.ule(0x1e3ce508)))
                E.beq(f'direction {k} {j}', E.of[3*k+j], d)
    hs.append(H('ray_parallel', 'Ray r, q(S3(f), S3(f), false), c = q; c.setDirection(S3(f+3), false); c.setDirection(S3(f), false); r.setDirection(S3(f), false); Ray m = q; Ray& n = (m *= S3(f+3)); '
        'auto D = [&](const Ray& x, int k) { u32x4 m = x.getParallel(); oi[k] = m.getX(); oi[k+1] = m.getY(); oi[k+2] = m.getZ(); P3(of + k, x.getDirection()); }; D(r, 0); D(q, 3); D(c, 6); D(n, 9);',
        spec, mode='bits', nf=6, nof=12, noi=12))
    for nm, op in (('mul', '*'), ('div', '/'), ('add', '+'), ('sub', '-')):
        def fn(E, a, b, op=op): return a*b if op == '*' else a/b if op == '/' else a + b if op == '+' else a - b
        def preO(E, op=op, fn=fn):
            if op == '/':
                for j in range(3): E.assume(E.NOT(E.eqc(E.f[6+j], 0)))
            for r in range(3): E.assume(E.le(-64, E.f[3+r])); E.assume(E.le(E.f[3+r], 64))
            d = [fn(E, E.f[3+j], E.f[6+j]) for j in range(3)]
            E.assume(E.lt(E.k(Fr(1, 64)), dot(d, d)))
        def spec(E, fn=fn):
            v = E.f[6:9]; d = [fn(E, E.f[3+j], v[j]) for j in range(3)]; L = E.sqrt(dot(d, d))
            for j in range(3):
                E.eq(f'origin {j}', E.of[j], fn(E, E.f[j], v[j])); E.eq(f'direction {j}', E.of[3+j]*L, d[j])
                E.eq(f'compound origin {j}', E.of[6+j], fn(E, E.f[j], v[j])); E.eq(f'compound direction {j}', E.of[9+j], d[j])
        hs.append(H('ray_' + nm, f'Ray r(S3(f), S3(f+3), false), s = r {op} S3(f+6); P3(of, s.origin); P3(of+3, s.getDirection()); Ray& t = (r {op}= S3(f+6)); P3(of+6, t.origin); P3(of+9, r.getDirection());',
            spec, nf=9, nof=12, pre=preO))
    C = {'left': (-1, 0, 0), 'right': (1, 0, 0), 'bottom': (0, -1, 0), 'top': (0, 1, 0), 'back': (0, 0, -1), 'front': (0, 0, 1)}
    def spec(E):
        for n, (nm, v) in enumerate(C.items()):
            for j in range(3):
                E.eq(f'Ray::{nm} {j}', E.of[9*n+j], E.k(v[j])); E.eq(f'Ray::{nm} origin {j}', E.of[9*n+3+j], E.k(0))
                E.eq(f'Plane::{nm} {j}', E.of[9*n+6+j], E.k(v[j]))
            E.eq(f'Plane::{nm} distance', E.of[54+n], E.k(0))
        for n, r in enumerate((0.5, 1, 0.25)):
            E.eq(f'Sphere constant {n} radius', E.of[60+4*n], E.k(r))
            for j in range(3): E.eq(f'Sphere constant {n} position {j}', E.of[61+4*n+j], E.k(0))
    hs.append(H('constants', ''.join(f'P3(of+{9*n}, Ray::{nm}.getDirection()); P3(of+{9*n+3}, Ray::{nm}.origin); P3(of+{9*n+6}, Plane::{nm}.getNormal()); of[{54+n}] = Plane::{nm}.getDistance();' for n, nm in enumerate(C))
        + ''.join(f'of[{60+4*n}] = Sphere::{nm}.getRadius(); P3(of+{61+4*n}, Sphere::{nm}.getPosition());' for n, nm in enumerate(('one', 'two', 'half'))), spec, nf=0, nof=72))
    # --- plane
    def spec(E):
        n, d, p = E.f[:3], E.f[3], E.f[4:7]
        E.eq('distance3', E.of[0], dot(n, p) + d)
        for j in range(3): E.eq(f'getNormal {j}', E.of[1+j], n[j])
        E.eq('getDistance', E.of[4], d)
        for j in range(3): E.eq(f'setDistance keeps normal {j}', E.of[5+j], n[j]); E.eq(f'setNormal(false) {j}', E.of[9+j], p[j])
        E.eq('setDistance', E.of[8], p[0]); E.eq('setNormal keeps distance', E.of[12], d)
    hs.append(H('plane', 'Plane a(S3(f), f[3], false), b = a, c = a; b.setDistance(f[4]); c.setNormal(S3(f+4), false); of[0] = distance3(a, S3(f+4)); P3(of+1, a.getNormal()); of[4] = a.getDistance(); '
        'P3(of+5, b.getNormal()); of[8] = b.getDistance(); P3(of+9, c.getNormal()); of[12] = c.getDistance();', spec, nf=7, nof=13))
    def spec(E):
        if not num(E, 8): return
        L = E.sqrt(dot(E.f[:3], E.f[:3]))
        for j in range(3): E.eq(f'constructor normal {j}', E.of[j]*L, E.f[j]); E.eq(f'setNormal {j}', E.of[4+j]*L, E.f[j])
        E.eq('constructor distance', E.of[3], E.f[3]); E.eq('setNormal distance', E.of[7], E.f[3])
    hs.append(H('plane_normalize', 'Plane a(S3(f), f[3]), b(f32x4(0.0f, 1.0f, 0.0f, 0.0f), f[3], false); b.setNormal(S3(f)); P3(of, a.getNormal()); of[3] = a.getDistance(); P3(of+4, b.getNormal()); of[7] = b.getDistance();',
        spec, nf=4, nof=8, pre=lambda E: E.assume(E.lt(0, dot(E.f[:3], E.f[:3])))))
    def spec(E):
        n, d, p, q = E.f[:3], E.f[3], E.f[4:7], E.of[:3]; k = dot(n, p) + d
        E.eq('lies on the plane', dot(n, q) + d, E.k(0))
        for j in range(3): E.eq(f'displacement along the normal {j}', p[j] - q[j], n[j]*k)
    hs.append(H('plane_closest', 'P3(of, closestPoint(Plane(S3(f), f[3], false), S3(f+4)));', spec, nf=7, nof=3, unit=[(0, 1, 2)]))
    # --- sphere
    def preS(E): E.assume(E.AND(E.le(0, E.f[0]), E.le(0, E.f[4])))
    def spec(E):
        r, c, p = E.f[0], E.f[1:4], E.f[5:8]; d = sub(c, p); x = dot(d, d) - r*r
        E.iff('point inside', E.oi[0], E.lt(x, 0), slacks=[x])
        s = r + E.f[4]; y = dot(d, d) - s*s
        E.iff('spheres intersect', E.oi[1], E.le(y, 0), slacks=[y])
        E.eq('radius', E.of[0], r); E.eq('setPosition keeps radius', E.of[4], r); E.eq('setRadius', E.of[8], E.f[4])
        for j in range(3): E.eq(f'position {j}', E.of[1+j], c[j]); E.eq(f'setPosition {j}', E.of[5+j], p[j]); E.eq(f'setRadius keeps position {j}', E.of[9+j], c[j])
    hs.append(H('sphere', 'Sphere s(f[0], S3(f+1)), t(f[4], S3(f+5)), a = s, b = s; oi[0] = isInside(s, S3(f+5)); oi[1] = isIntersected(s, t); a.setPosition(S3(f+5)); b.setRadius(f[4]); '
        'of[0] = s.getRadius(); P3(of+1, s.getPosition()); of[4] = a.getRadius(); P3(of+5, a.getPosition()); of[8] = b.getRadius(); P3(of+9, b.getPosition());', spec, nf=8, nof=12, noi=2, pre=preS))
    def preB(E): E.assume(E.le(0, E.f[0])); E.assume(E.AND(*[E.le(E.f[4+j], E.f[7+j]) for j in range(3)]))
    def spec(E):
        r, c = E.f[0], E.f[1:4]; dd = E.k(0)
        for j in range(3):
            k = E.max(E.max(E.f[4+j] - c[j], c[j] - E.f[7+j]), 0); dd = dd + k*k
        x = dd - r*r
        E.iff('sphere intersects box', E.oi[0], E.lt(x, 0), slacks=[x])
    hs.append(H('sphere_aabb', 'oi[0] = isIntersected(Sphere(f[0], S3(f+1)), Aabb(S3(f+4), S3(f+7)));', spec, nf=10, noi=1, pre=preB, opts={'ite': 'sym'}))
    def preC(E): d = sub(E.f[4:7], E.f[1:4]); E.assume(E.AND(E.le(0, E.f[0]), E.lt(0, dot(d, d))))
    def spec(E):
        if not num(E, 3): return
        r, c, p, q = E.f[0], E.f[1:4], E.f[4:7], E.of[:3]; d = sub(p, c); L = E.sqrt(dot(d, d))
        for j in range(3): E.eq(f'on the surface towards the point {j}', (q[j] - c[j])*L, d[j]*r)
    hs.append(H('sphere_closest', 'P3(of, closestPoint(Sphere(f[0], S3(f+1)), S3(f+4)));', spec, nf=7, nof=3, pre=preC))
    return hs
