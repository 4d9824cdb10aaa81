"""C25: SIMD exp, log, sinCos, fastPow and the rotations built from them."""
from fractions import Fraction as Fr
import math
from vf import H
META = dict(
 title='SIMD exp, log, sinCos, fastPow and angle rotations match their functions',
 statement='Per lane, log(f32x4) is the natural logarithm for every positive finite float including subnormals (0 gives -inf, negative and NaN give NaN, +inf gives +inf), exp is e^x on [-87, 88] (above 104 inf, below -104 zero), and sinCos is the sine and cosine of angles of either sign over many turns. '
   'fastPow(b, e) = exp(e log|b|) with the sign of an odd integer power, pow(b, 0) = 1. quat(angle, axis) is (axis sin(angle/2), cos(angle/2)) and fromEulerAngles is the quaternion product roll * yaw * pitch of the three axis rotations.',
 long=True,
 quant='every real input in every binade / every quadrant within the stated range, with float constants as compiled; special values by exact IEEE semantics; SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='one wrong coefficient, sign or exponent step costs a few digits or shows only in some binade or quadrant',
 files=['include/math/simd/vector/float.hpp', 'include/math/quaternion.hpp'],
 mech=[('log, exp, fastPow, sinCos', 'include/math/simd/vector/float.hpp'), ('quat(angle, axis), fromEulerAngles', 'include/math/quaternion.hpp')],
 note='Approximation error only: coefficients and range reduction are checked in exact real arithmetic against Taylor expansions with bounded remainders; accumulated rounding is outside (compiled runs are compared with the encoding).')
EXPLAIN = 'The float bit manipulation is executed on symbolic reals by splitting on the binade; the result is a polynomial of the reduced argument compared with a Taylor polynomial whose remainder is below the tolerance.'
ASSUME = ['real arithmetic (no rounding)', 'Taylor remainders of ln, exp, sin and cos on the reduced intervals (elementary bounds)']
ALT = {'quick': (), 'thorough': ('scalar', 'neon')}
BOUNDS = ['quick: selected binades/quadrants; thorough: all 254 binades, all exp exponents, 2000 quadrants']
B = Fr(2)**12
def poly(E, y, cs):
    r = E.k(cs[-1])
    for c in cs[-2::-1]: r = r*y + E.k(c)
    return r
def harnesses(tier):
    hs = []; quick = tier == 'quick'; C = ['haswell'] if quick else ['sse2', 'haswell']
    LN2 = Fr(math.log(2))
    ks = [-126, -125, -60, -5, -3, -2, -1, 0, 1, 2, 3, 7, 31, 64, 126] if quick else range(-126, 127)
    for k in ks:
        # v = 2^k (1+y)/(1-y), y in (-1/7, 1/5)  <=>  v/2^k in (3/4, 3/2): ln v = k ln 2 + 2 atanh y
        def derive(E, k=k):
            y = E.virt[0]
            if E.conc and y.const() == 1: E.f = [E.k(1)]; return      # outside the range anyway
            E.positive(E.k(1) - y); E.positive(E.k(1) + y)
            E.f = [(E.k(1) + y)/(E.k(1) - y)*E.k(Fr(2)**k)]
        def pre(E):
            y = E.virt[0]; E.assume(E.le(E.k(Fr(-1, 7)), y)); E.assume(E.lt(y, E.k(Fr(1, 5)))); E.positive(E.k(1) - y); E.positive(E.k(1) + y)
        def spec(E, k=k):
            y = E.virt[0]; y2 = y*y
            T = y*poly(E, y2, [2, Fr(2, 3), Fr(2, 5), Fr(2, 7), Fr(2, 9)]) + E.k(LN2*k)
            if not all(E.isnum(x) for x in E.of[:1]): E.true('finite', False); return
            E.near('log', E.of[0], T, Fr(1, 10**6)*max(1, abs(k)) if k else Fr(3, 10**7))
        hs.append(H(f'log_{k}'.replace('-', 'm'), 'of[0] = log(f32x4(f[0], 1.0f, 1.0f, 1.0f)).getX();', spec, nf=1, nvirt=1, nof=1, derive=derive, pre=pre, cfgs=C, opts={'binade': (max(-126, k - 2), min(127, k + 2)) if k > -126 else (-126, -60), 'nra': True, 'lifork': True}, tol=3e-6))
    # exp: v = q L + s, q integer, |s| <= 0.36
    L = Fr(math.log(2))
    import math as _m
    T8 = [Fr(1, _m.factorial(i)) for i in range(10)]
    qs = [-125, -64, -10, -1, 0, 1, 2, 11, 63, 126] if quick else range(-125, 127)
    for q in qs:
        def derive(E, q=q): E.f = [E.k(L*q) + E.virt[0]]
        def pre(E): s = E.virt[0]; E.assume(E.le(E.k(Fr(-36, 100)), s)); E.assume(E.le(s, E.k(Fr(36, 100))))
        def spec(E, q=q):
            s = E.virt[0]
            if not E.isnum(E.of[0]): E.true('finite', False); return
            E.near('exp', E.of[0]*E.k(Fr(2)**-q), poly(E, s, T8), Fr(1, 10**6))
        hs.append(H(f'exp_{q}'.replace('-', 'm'), 'of[0] = exp(f32x4(f[0], 1.0f, 1.0f, 1.0f)).getX();', spec, nf=1, nvirt=1, nof=1, derive=derive, pre=pre, cfgs=C, opts={'binade': (-126, 127), 'nra': True, 'lifork': True}, tol=3e-6))
    # sinCos: v = sigma (q pi/2 + r), |r| <= 0.7854
    PI2 = Fr(3141592653589793238462643, 2*10**24)
    SN = [Fr((-1)**i, _m.factorial(2*i + 1)) for i in range(6)]; CN = [Fr((-1)**i, _m.factorial(2*i)) for i in range(6)]
    def sc(E, r, q, sg):
        S = r*poly(E, r*r, SN); Co = poly(E, r*r, CN)
        S, Co = [(S, Co), (Co, -S), (-S, -Co), (-Co, S)][q % 4]
        return (S if sg > 0 else -S), Co
    def rpre(q):
        def pre(E): s = E.virt[0]; E.assume(E.le(E.k(Fr(-7854, 10000) if q else 0), s)); E.assume(E.le(s, E.k(Fr(7854, 10000))))
        return pre
    for q in ([0, 1, 2, 3, 4, 5, 6, 7, 401] if quick else list(range(64)) + [400 + i for i in range(8)] + [4000 + i for i in range(8)]):
        for sg in (1, -1):
            def derive(E, q=q, sg=sg): E.f = [(E.k(PI2*q) + E.virt[0])*E.k(sg)]
            def spec(E, q=q, sg=sg):
                S, Co = sc(E, E.virt[0], q, sg)
                if not all(E.isnum(x) for x in E.of[:2]): E.true('finite', False); return
                E.near('sin', E.of[0], S, Fr(5, 10**7)); E.near('cos', E.of[1], Co, Fr(5, 10**7))
            hs.append(H(f'sincos_{q}_{"p" if sg > 0 else "n"}', 'f32x4 s, c; sinCos(f32x4(f[0], 0.25f, 0.5f, 1.0f), s, c); of[0] = s.getX(); of[1] = c.getX();', spec, nf=1, nvirt=1, nof=2, derive=derive, pre=rpre(q), cfgs=C, opts={'nra': True, 'lifork': True}, tol=1e-3 if q > 1000 else 1e-4 if q > 100 else 1e-5 if q > 8 else 3e-6))
    for q in range(0, 5 if quick else 16):
        for sg in (1, -1):
            def derive(E, q=q, sg=sg): E.f = [(E.k(PI2*q) + E.virt[0])*E.k(2*sg)] + [E.virt[i] for i in (1, 2, 3)]
            def pre(E, q=q):
                rpre(q)(E)
                for i in (1, 2, 3): E.assume(E.le(E.k(-1), E.virt[i])); E.assume(E.le(E.virt[i], E.k(1)))
            def spec(E, q=q, sg=sg):
                S, Co = sc(E, E.virt[0], q, sg)
                for i in range(3): E.near(f'axis {i}', E.of[i], E.virt[1 + i]*S, Fr(1, 10**6))
                E.near('w', E.of[3], Co, Fr(1, 10**6))
            hs.append(H(f'quat_axis_{q}_{"p" if sg > 0 else "n"}', 'P(of, quat(f[0], f32x4(f[1], f[2], f[3], 0.0f)));', spec, nf=4, nvirt=4, nof=4, derive=derive, pre=pre, cfgs=C, opts={'nra': True, 'lifork': True}, tol=3e-6))
    # special values, exact IEEE semantics
    INF, NINF = 0x7f800000, 0xff800000
    def lspec(E):
        v = E.w(E.f[0]); o = E.w(E.of[0])
        z = (v & 0x7fffffff).eq(0); neg = E.AND(E.NOT(z), E.NOT(E.isnan(E.f[0])), v.shr(31).eq(1))
        E.true('log(0) = -inf', E.IMP(z, o.eq(NINF)))
        E.true('log(negative) is NaN', E.IMP(neg, E.isnan(E.of[0])))
        E.true('log(NaN) is NaN', E.IMP(E.isnan(E.f[0]), E.isnan(E.of[0])))
        E.true('log(inf) = inf', E.IMP(v.eq(INF), o.eq(INF)))
    lpre = lambda E: E.assume(E.OR(E.w(E.f[0]).shr(31).eq(1), E.w(E.f[0]).eq(0), E.isnan(E.f[0]), E.w(E.f[0]).eq(INF)))
    hs.append(H('log_special', 'of[0] = log(f32x4(f[0], 1.0f, 1.0f, 1.0f)).getX();', lspec, mode='bits', nf=1, nof=1, pre=lpre, cfgs=C))
    def espec(E):
        v = E.f[0]; o = E.w(E.of[0])
        E.true('exp above 104 is inf', E.IMP(E.fcmp('ogt', v, E.F(104.0)), o.eq(INF)))
        E.true('exp below -104 is zero', E.IMP(E.fcmp('olt', v, E.F(-104.0)), (o & 0x7fffffff).eq(0)))
    epre = lambda E: E.assume(E.OR(E.fcmp('ogt', E.f[0], E.F(104.0)), E.fcmp('olt', E.f[0], E.F(-104.0))))
    hs.append(H('exp_special', 'of[0] = exp(f32x4(f[0], 1.0f, 1.0f, 1.0f)).getX();', espec, mode='bits', nf=1, nof=1, pre=epre, cfgs=C))
    # fastPow: sign, zero and one logic around exp(e log|b|)
    def fspec(E):
        b, e, o, base = E.f[0], E.f[1], E.w(E.of[0]), E.w(E.of[1])
        bz = (E.w(b) & 0x7fffffff).eq(0); ez = (E.w(e) & 0x7fffffff).eq(0)
        E.true('pow(b, 0) = 1', E.IMP(ez, o.eq(0x3f800000)))
        E.true('pow(0, e) = 0 for e > 0', E.IMP(E.AND(bz, E.fcmp('ogt', e, E.F(0.0))), o.eq(0)))
        small = E.AND(E.fcmp('ogt', e, E.F(-16777216.0)), E.fcmp('olt', e, E.F(16777216.0)))
        n = E.ftoi(e); isint = E.fcmp('oeq', E.itof(n), e)
        odd = E.AND(small, isint, (n & 1).eq(1)); neg = E.fcmp('olt', b, E.F(0.0))
        E.true('sign', E.IMP(E.AND(E.NOT(bz), E.NOT(ez), E.NOT(E.isnan(E.of[1]))), o.eq(E.sel(E.AND(neg, odd), (base ^ 0x80000000).v, base.v))))
    hs.append(H('fastpow_sign', 'f32x4 b(f[0], 1.0f, 1.0f, 1.0f), e(f[1], 1.0f, 1.0f, 1.0f); of[0] = fastPow(b, e).getX(); of[1] = exp(log(abs(b)) * e).getX();', fspec, mode='bits', nf=2, nof=2, cfgs=C, opts={'noalt': ('neon',)}))
    # every lane depends on its own inputs only: the four-lane result against the result for that lane in all four lanes
    def lanes(name, call, nin, nout):
        av = ', '.join(f'S4(f+{4*j})' for j in range(nin)); out = ''; args = lambda k: ', '.join(f'f32x4(f[{4*j}+{k}])' for j in range(nin))
        body = 'f32x4 r[2], t[2]; ' + call.format(a=av, o='r') + ' ' + ' '.join(f'P(of+{4*j}, r[{j}]);' for j in range(nout))
        for k in range(4): body += ' { ' + call.format(a=args(k), o='t') + ' ' + ' '.join(f'of[{4*nout + 4*j}+{k}] = t[{j}][{k}];' for j in range(nout)) + ' }'
        def spec(E):
            for j in range(4*nout): E.true(f'lane {j}', E.OR(E.w(E.of[j]).eq(E.w(E.of[4*nout+j])), E.AND(E.isnan(E.of[j]), E.isnan(E.of[4*nout+j]))))
        hs.append(H(f'lanes_{name}', body, spec, mode='bits', nf=4*nin, nof=8*nout, cfgs=['sse2']))     # no contraction to fused operations in the replay build
    for nm in ('exp', 'log'): lanes(nm, '{o}[0] = %s({a});' % nm, 1, 1)
    lanes('fastPow', '{o}[0] = fastPow({a});', 2, 1); lanes('sinCos', 'sinCos({a}, {o}[0], {o}[1]);', 1, 2)
    # fromEulerAngles: product of the three axis rotations
    EC = 'f32x4 v = S3(f), s, c; sinCos(v * 0.5f, s, c); quat qx(s.getX(), 0.0f, 0.0f, c.getX()), qy(0.0f, s.getY(), 0.0f, c.getY()), qz(0.0f, 0.0f, s.getZ(), c.getZ()); '
    for nm, (qa, qb, qc) in {'000': (0, 0, 0), '012': (0, 1, 2), '310': (3, 1, 0), 'n1': (-1, 2, 0), 'n2': (0, -3, -1)}.items():
        if quick and nm not in ('000', 'n1'): continue
        def derive(E, Q=(qa, qb, qc)): E.f = [(E.k(PI2*abs(q)) + E.virt[i])*E.k(2 if q >= 0 else -2) for i, q in enumerate(Q)]
        def pre(E, Q=(qa, qb, qc)):
            for i, q in enumerate(Q): E.assume(E.le(E.k(Fr(-78, 100) if q else 0), E.virt[i])); E.assume(E.le(E.virt[i], E.k(Fr(78, 100))))
        def spec(E):
            ham = lambda a, b: [a[3]*b[0] + a[0]*b[3] + a[1]*b[2] - a[2]*b[1], a[3]*b[1] + a[1]*b[3] + a[2]*b[0] - a[0]*b[2],
                                a[3]*b[2] + a[2]*b[3] + a[0]*b[1] - a[1]*b[0], a[3]*b[3] - a[0]*b[0] - a[1]*b[1] - a[2]*b[2]]
            s, c = E.of[4:7], E.of[7:10]; Z = E.k(0)
            r = ham(ham([Z, Z, s[2], c[2]], [Z, s[1], Z, c[1]]), [s[0], Z, Z, c[0]])
            for i in range(4): E.near(f'component {i}', E.of[i], r[i], Fr(1, 10**6))
        hs.append(H(f'euler_{nm}', 'f32x4 v = S3(f), s, c; sinCos(v * 0.5f, s, c); P(of, fromEulerAngles(v)); P3(of+4, s); P3(of+7, c);', spec, nf=3, nvirt=3, nof=10, derive=derive, pre=pre, cfgs=C, opts={'nra': True, 'lifork': True}, tol=3e-6))
    return hs
