"""C14: quaternion algebra and rotation."""
from vf import H
from C07 import dot, cross
from C10 import Rm, eqm
META = dict(
 title='Quaternion product, inverse and rotation form one consistent rotation algebra',
 statement='Quaternion * and *= are the Hamilton product, conjugate negates the imaginary part, inverse(q) * q = q * inverse(q) = identity for every nonzero q, and normalize gives the unit quaternion of the same direction. '
   'For unit quaternions q*v equals rotate(q)*v and preserves length, (a*b)*v = a*(b*v), v*q undoes q*v, and rotate(a*b) = rotate(a)*rotate(b).',
 quant='all real quaternions and vectors (inverse, normalize: nonzero; rotation laws: unit), SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='rotation samples about one axis commute, so a swapped order or sign passes them; the laws must hold for every pair',
 files=['include/math/quaternion.hpp', 'include/math/matrix/transform.hpp'],
 mech=[('quat::operator*, conjugate, inverse, normalize', 'include/math/quaternion.hpp'), ('rotate(quat)', 'include/math/matrix/transform.hpp')],
 note='Real arithmetic. Rotated vectors are judged on X, Y, Z.')
EXPLAIN = 'Products and rotations run symbolically; all laws are polynomial identities modulo |q| = 1.'
ASSUME = ['real arithmetic']
BOUNDS = ['all values']
def ham(a, b):
    x, y, z, w = a; X, Y, Z, W = b
    return [w*X+x*W+y*Z-z*Y, w*Y+y*W+z*X-x*Z, w*Z+z*W+x*Y-y*X, w*W-x*X-y*Y-z*Z]
def harnesses(tier):
    hs = []
    def spec(E):
        a, b = E.f[:4], E.f[4:8]; p = ham(a, b)
        for j in range(4):
            E.eq(f'a*b[{j}]', E.of[j], p[j]); E.eq(f'a*=b[{j}]', E.of[4+j], p[j]); E.eq(f'a*=b returns *this[{j}]', E.of[8+j], a[j])
            E.eq(f'conjugate[{j}]', E.of[12+j], a[j] if j == 3 else -a[j]); E.eq(f'identity*a[{j}]', E.of[16+j], a[j]); E.eq(f'a*identity[{j}]', E.of[20+j], a[j]); E.eq(f'identity[{j}]', E.of[24+j], E.k(1 if j == 3 else 0)); E.eq(f'default[{j}]', E.of[28+j], E.k(1 if j == 3 else 0)); E.eq(f'ctor[{j}]', E.of[32+j], a[j])
    hs.append(H('product', 'quat a(S4(f)), b(S4(f+4)); P(of, a*b); quat t=a; quat& r=(t*=b); P(of+4, t); r=a; P(of+8, t); P(of+12, conjugate(a)); P(of+16, quat::identity*a); P(of+20, a*quat::identity); P(of+24, quat::identity); P(of+28, quat()); P(of+32, quat(f[0], f[1], f[2], f[3]));', spec, nf=8, nof=36))
    def pre(E): E.assume(E.lt(0, dot(E.f[:4], E.f[:4])))
    def spec(E):
        q = E.f[:4]; o = E.of
        if not all(E.isnum(x) for x in o): E.true('finite', False); return
        n = E.sqrt(dot(q, q))
        for j in range(4):
            E.eq(f'inverse*q[{j}]', o[j], E.k(1 if j == 3 else 0)); E.eq(f'q*inverse[{j}]', o[4+j], E.k(1 if j == 3 else 0)); E.eq(f'normalize[{j}]', o[8+j]*n, q[j])
            iq = o[12:16]; E.eq(f'inverse is the conjugate over |q|^2 [{j}]', iq[j]*dot(q, q), q[j] if j == 3 else -q[j])
    hs.append(H('inverse', 'quat q(S4(f)); P(of, inverse(q)*q); P(of+4, q*inverse(q)); P(of+8, normalize(q)); P(of+12, inverse(q));', spec, nf=4, nof=16, pre=pre, tol=5e-3))
    def spec(E):
        q, v = E.f[:4], E.f[4:7]; R = Rm(q); o = E.of
        if not all(E.isnum(o[4*k+j]) for k in range(4) for j in range(3)): E.true('finite', False); return
        for j in range(3):
            e = R[j]*v[0]+R[4+j]*v[1]+R[8+j]*v[2]; u = R[4*j]*v[0]+R[4*j+1]*v[1]+R[4*j+2]*v[2]
            E.eq(f'q*v[{j}]', o[j], e); E.eq(f'v*q[{j}]', o[4+j], u); E.eq(f'(q*v)*q[{j}]', o[8+j], v[j]); E.eq(f'q*(v*q)[{j}]', o[12+j], v[j])
        E.eq('length kept', dot(o[:3], o[:3]), dot(v, v))
    hs.append(H('rotate_vector', 'quat q(S4(f)); f32x4 v=S3(f+4); P(of, q*v); P(of+4, v*q); P(of+8, (q*v)*q); P(of+12, q*(v*q));', spec, nf=7, nof=16, unit=[(0, 1, 2, 3)]))
    def spec(E):
        v = E.f[8:11]; o = E.of
        for j in range(3): E.eq(f'(a*b)*v = a*(b*v)[{j}]', o[j], o[4+j])
        E.eq('|a*b| = 1', dot(o[8:12], o[8:12]), E.k(1))
        for c in range(4):
            for r in range(4): E.eq(f'rotate(a*b)[c{c}r{r}]', o[12+c*4+r], o[28+c*4+r])
    hs.append(H('compose', 'quat a(S4(f)), b(S4(f+4)); f32x4 v=S3(f+8); P(of, (a*b)*v); P(of+4, a*(b*v)); P(of+8, a*b); P(of+12, rotate(a*b)); P(of+28, rotate(a)*rotate(b));', spec, nf=11, nof=44, unit=[(0, 1, 2, 3), (4, 5, 6, 7)]))
    return hs
