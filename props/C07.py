"""C07: dot, cross, length, distance, normalize, angles (scalar and SIMD)."""
import math
from fractions import Fraction as Fr
from vf import H
from floatvec import C3
META = dict(
 title='dot, cross, length, distance, normalize and angle units equal their formulas',
 statement='For scalar vectors and f32x4 alike: dot sums the products of the named components (2, 3 or 4, the other lanes never leak in; dotV3/dotV4 broadcast it to every lane), cross is the right-handed cross product, length and distance (and squares) are Euclidean, '
   'normalize scales a nonzero vector to unit length in the same direction, isNormalized is | |v|^2 - 1 | <= tolerance and isClose is |a-b|^2 <= maxDistSq. radians/degrees multiply by pi/180 and 180/pi.',
 quant='every real-valued vector (normalize: nonzero), each code path; arithmetic over the reals, so rounding is not judged',
 over=['inputs', 'configurations'],
 why='a wrong shuffle mask or dot-product immediate only shows for particular lanes and instruction sets; tests check a few integers on one',
 files=['include/math/vector/float.hpp', 'include/math/simd/vector/float.hpp', 'include/math/angles.hpp'],
 mech=[('dot, cross, length, distance, normalize, isClose, isNormalized', 'include/math/vector/float.hpp'), ('dotV3/dotV4/dot3/dot4/cross3/length3/length4/normalize3/normalize4', 'include/math/simd/vector/float.hpp'), ('radians, degrees', 'include/math/angles.hpp')],
 note='Exact real-arithmetic semantics of the compiled IR (float constants exact). SIMD 3D results are judged on X, Y and Z.')
EXPLAIN = 'Each function is executed symbolically over the reals and compared with its defining polynomial; square roots by their defining equation.'
ASSUME = ['real arithmetic (no rounding, overflow)', 'vectors given to normalize are nonzero']
BOUNDS = ['all real inputs; |angle| unbounded with relative error 1e-6']

def dot(a, b):
    r = a[0]*b[0]
    for x, y in zip(a[1:], b[1:]): r = r + x*y
    return r
def cross(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]

def harnesses(tier):
    hs = []
    for T, ld, n in (('float2', 'F2', 2), ('float3', 'F3', 3), ('float4', 'F4', 4)):
        body = f'{T} a={ld}(f), b={ld}(f+{n}); P(of,dot(a,b)); P(of+1,lengthSq(a)); P(of+2,length(a)); P(of+3,distanceSq(a,b)); P(of+4,distance(a,b)); P(oi,isClose(a,b,f[{2*n}])); P(oi+1,isNormalized(a,f[{2*n}])); P(oi+2,isClose(a,b)); P(oi+3,isNormalized(a));'
        def spec(E, n=n):
            a, b, t = E.f[:n], E.f[n:2*n], E.f[2*n]; d = [x-y for x, y in zip(a, b)]
            l2 = dot(a, a); d2 = dot(d, d)
            E.eq('dot', E.of[0], dot(a, b)); E.eq('lengthSq', E.of[1], l2); E.eq('length', E.of[2], E.sqrt(l2)); E.eq('distanceSq', E.of[3], d2); E.eq('distance', E.of[4], E.sqrt(d2))
            E.iff('isClose', E.oi[0], E.le(d2, t), slacks=(d2-t,)); E.iff('isNormalized', E.oi[1], E.le(E.abs(l2-1), t), slacks=(E.abs(l2-1)-t,))
            e12 = E.k(Fr(1e-12)); e6 = E.k(Fr(1e-6))
            # default tolerances: 1e-12 / 1e-6 (judged away from the float rounding of the constant)
            E.true('isClose default accepts', E.IMP(E.le(d2, e12*E.k(Fr(99, 100))), E.oi[2].ne(0))); E.true('isClose default rejects', E.IMP(E.le(e12*E.k(Fr(101, 100)), d2), E.oi[2].eq(0)))
            g = E.abs(l2-1)
            E.true('isNormalized default accepts', E.IMP(E.le(g, e6*E.k(Fr(9, 10))), E.oi[3].ne(0)), slacks=(g-e6,), tol=1e-6); E.true('isNormalized default rejects', E.IMP(E.le(e6*E.k(Fr(11, 10)), g), E.oi[3].eq(0)), slacks=(g-e6,), tol=1e-6)
        hs.append(H(f'{T}_metric', body, spec, nf=2*n+1, nof=5, noi=4, opts={'ite': 'sym'}))
        def npre(E): E.assume(E.lt(0, dot(E.f, E.f)))
        def nspec(E, n=n):
            if not all(E.isnum(o) for o in E.of): E.true('normalize finite', False); return
            l = E.sqrt(dot(E.f, E.f))
            for j in range(n): E.eq(f'normalize[{j}]', E.of[j]*l, E.f[j])
        hs.append(H(f'{T}_normalize', f'P(of, normalize({ld}(f)));', nspec, nf=n, nof=n, pre=npre))
    def cspec(E):
        for j, x in enumerate(cross(E.f[:3], E.f[3:])): E.eq(f'cross[{j}]', E.of[j], x)
    hs.append(H('float3_cross', 'P(of, cross(F3(f), F3(f+3)));', cspec, nf=6, nof=3))
    # SIMD: full 4-lane inputs, so that a leaking W lane is visible
    hs.append(H('f32x4_cross3', 'P3(of, cross3(S4(f), S4(f+4)));', lambda E: cspec2(E), nf=8, nof=3, cfgs=C3))
    def cspec2(E):
        for j, x in enumerate(cross(E.f[:3], E.f[4:7])): E.eq(f'cross3[{j}]', E.of[j], x)
    body = ('f32x4 a=S4(f), b=S4(f+4); P(of,dotV4(a,b)); P(of+4,dotV3(a,b)); P(of+8,dot4(a,b)); P(of+9,dot3(a,b)); P(of+10,lengthSq4(a)); P(of+11,lengthSq3(a)); '
      'P(of+12,length4(a)); P(of+13,length3(a)); P(of+14,distanceSq4(a,b)); P(of+15,distanceSq3(a,b)); P(of+16,distance4(a,b)); P(of+17,distance3(a,b)); P(oi,isNormalized4(a,f[8])); P(oi+1,isNormalized3(a,f[8])); P(oi+2,isNormalized4(a)); P(oi+3,isNormalized3(a));')
    def sspec(E):
        a, b, t = E.f[:4], E.f[4:8], E.f[8]; d = [x-y for x, y in zip(a, b)]
        for j in range(4): E.eq(f'dotV4[{j}]', E.of[j], dot(a, b)); E.eq(f'dotV3[{j}]', E.of[4+j], dot(a[:3], b[:3]))
        E.eq('dot4', E.of[8], dot(a, b)); E.eq('dot3', E.of[9], dot(a[:3], b[:3]))
        l4, l3, d4, d3 = dot(a, a), dot(a[:3], a[:3]), dot(d, d), dot(d[:3], d[:3])
        for k, (nm, v) in enumerate((('lengthSq4', l4), ('lengthSq3', l3), ('length4', E.sqrt(l4)), ('length3', E.sqrt(l3)), ('distanceSq4', d4), ('distanceSq3', d3), ('distance4', E.sqrt(d4)), ('distance3', E.sqrt(d3)))):
            E.eq(nm, E.of[10+k], v)
        e6 = E.k(Fr(1e-6))
        for k, l in ((0, l4), (1, l3)):
            g = E.abs(l-1)
            E.iff(f'isNormalized{4-k}', E.oi[k], E.le(g, t), slacks=(g-t,))
            E.true(f'isNormalized{4-k} default accepts', E.IMP(E.le(g, e6*E.k(Fr(9, 10))), E.oi[2+k].ne(0)), slacks=(g-e6,), tol=1e-6); E.true(f'isNormalized{4-k} default rejects', E.IMP(E.le(e6*E.k(Fr(11, 10)), g), E.oi[2+k].eq(0)), slacks=(g-e6,), tol=1e-6)
    hs.append(H('f32x4_metric', body, sspec, nf=9, nof=18, noi=4, cfgs=C3, opts={'ite': 'sym'}))
    for n in (4, 3):
        def npre(E, n=n): E.assume(E.lt(0, dot(E.f[:n], E.f[:n])))
        def nspec(E, n=n):
            if not all(E.isnum(o) for o in E.of[:n]): E.true('normalize finite', False); return
            l = E.sqrt(dot(E.f[:n], E.f[:n]))
            for j in range(n): E.eq(f'normalize[{j}]', E.of[j]*l, E.f[j])
        hs.append(H(f'f32x4_normalize{n}', f'P(of, normalize{n}(S4(f)));', nspec, nf=4, nof=4, pre=npre, cfgs=C3))
    body = 'P(of,radians(f[0])); P(of+1,radians(F2(f))); P(of+3,radians(F3(f))); P(of+6,radians(F4(f))); P(of+10,radians(S4(f))); P(of+14,degrees(f[0])); P(of+15,degrees(F2(f))); P(of+17,degrees(F3(f))); P(of+20,degrees(F4(f))); P(of+24,degrees(S4(f)));'
    def aspec(E):
        rad, deg = Fr(math.pi)/180, 180/Fr(math.pi)
        for base, cst, nm in ((0, rad, 'radians'), (14, deg, 'degrees')):
            k = base
            for n in (1, 2, 3, 4, 4):
                for j in range(n):
                    e = E.of[k] - E.k(cst)*E.f[j]; m = E.abs(E.f[j])*E.k(cst*Fr(1, 10**6))
                    E.le_(f'{nm} {n}[{j}] above', e, m); E.le_(f'{nm} {n}[{j}] below', -m, e); k += 1
    hs.append(H('angles', body, aspec, nf=4, nof=28, opts={'ite': 'sym'}))
    return hs
