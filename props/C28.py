"""C28: spherical harmonics."""
from fractions import Fraction as Fr
import math, struct
from vf import H
from C11 import same_quat  # noqa
META = dict(
 title='Spherical harmonics basis, rotation, windowing and solid angles are consistent',
 statement='computeShBasis(n) times the constants ki is the 3-band real SH basis times the cosine-lobe factor, indexed by shIndex. rotateSh3Bands(c, M) gives the coefficients of the rotated function: for the SH of a direction n it gives the SH of M n, for every rotation M. '
   'windowing scales band l by sinc(pi l / cutoff)^4 (1 for l = 0, 0 for l >= cutoff), shaderPreprocessSH scales each coefficient by its basis constant over pi, and deringingSH windows with the smallest over the color channels of the largest tested cutoff whose window of the original coefficients has no negative minimum (shmin). '
   'shmin of a window without x, y, xz and yz terms is its minimum over all directions; with an xz or yz term added it is that minimum less the largest value of the term, wherever this is positive. '
   'A texel solid angle is the sum of the solid angles of its four quarters, and sphereQuadrantArea is atan2(x y, sqrt(x^2+y^2+1)).',
 long=True,
 quant='every unit direction and every rotation (as rational functions of two arbitrary quaternions), every coefficient vector and cutoff', over=['inputs'],
 why='a transposed or sign-flipped band matrix still looks plausible for axis-aligned or symmetric samples',
 files=['include/math/sh.hpp'],
 mech=[('computeShBasis, ki, shIndex', 'include/math/sh.hpp'), ('rotateSh3Bands, rotateSphericalHarmonicBand1/2', 'include/math/sh.hpp'), ('windowing, sincWindow, shaderPreprocessSH, deringingSH', 'include/math/sh.hpp'), ('calcSolidAngle, sphereQuadrantArea', 'include/math/sh.hpp')],
 note='sin and atan2 are uninterpreted. The minimum search shmin is claimed for axis-aligned windows only (the Newton iterations of the general case have no bound): deringingSH is checked for every answer it can give.')
EXPLAIN = 'Functions run on symbolic reals; rotation equivariance is a polynomial identity in two quaternions, decided after clearing denominators.'
ASSUME = ['real arithmetic; tolerances cover the 7-digit float constants', 'sin, atan2 are functions (uninterpreted)']
BOUNDS = ['band 2 rotation and shaderPreprocessSH: components within [-1, 1] and [-2, 2] (the functions are linear or homogeneous)', '3 bands as in the library', 'shmin: nine settings of the z, xy and x2-y2 coefficients, symbolic constant and z2 coefficients in [-2, 2]']
PI = Fr(math.pi)
f32 = lambda x: Fr(struct.unpack('<f', struct.pack('<f', x))[0])
HD = 'namespace math::sh { __attribute__((noinline)) static float shmin(float shw[shCoeffCount]) noexcept; }\n'
def fbits(x): return struct.unpack('<I', struct.pack('<f', x))[0]
def rot(q):
    x, y, z, w = q
    return [[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)], [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)], [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]]
def harnesses(tier):
    hs = []; C = ['sse2', 'haswell']
    # real SH (times constants) of a direction, as in Ramamoorthi / Filament sign convention; h = |n|^2
    def basis(E, n):
        x, y, z = n
        return [E.k(1), -y, z, -x, 6*x*y if False else E.k(6)*x*y, E.k(-3)*y*z, (E.k(3)*z*z - E.k(1))*E.k(Fr(1, 2)), E.k(-3)*x*z, E.k(3)*(x*x - y*y)]
    def spec(E):
        for i, v in enumerate(basis(E, E.f[:3])): E.eq(f'basis {i}', E.of[i], v)
    hs.append(H('basis', 'sh::computeShBasis(F3(f), of);', spec, nf=3, nof=9, cfgs=C))
    # ki = K(l,m) * cosine lobe (pi, 2pi/3, pi/4)
    lobe = [math.pi, 2*math.pi/3, math.pi/4]
    def K(l, m):
        m = abs(m); k = math.sqrt((2*l + 1)*math.factorial(l - m)/(4*math.pi*math.factorial(l + m)))
        return k*(math.sqrt(2) if m else 1)*lobe[l]
    def spec(E):
        for l in range(3):
            for m in range(-l, l + 1):
                E.near(f'ki {l},{m}', E.of[l*(l+1)+m], E.k(Fr(K(l, m))), Fr(1, 10**6)); E.weq(f'index {l},{m}', E.oi[l*(l+1)+m], l*(l+1)+m)
    hs.append(H('ki', 'for (int k = 0; k < 9; k++) of[k] = sh::ki[k]; for (int l = 0; l < 3; l++) for (int m = -l; m <= l; m++) oi[l*(l+1)+m] = sh::shIndex(m, l);', spec, nf=1, nof=9, noi=9, cfgs=C))
    # rotation: for f = SH(n), n unit, result = SH(M n); band 1 linear in n, band 2 quadratic
    R3 = 'float r[9]; float3x3 m(F3(f+9), F3(f+12), F3(f+15)); sh::rotateSh3Bands(f, m, r); for (int k = 0; k < 9; k++) of[k] = r[k];'
    Kb = lambda n, h: (lambda x, y, z: [-y, z, -x])(*n)
    def der1(E):
        q = E.virt[:4]; d = q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]; E.positive(d)
        M = rot2(E, q); E.f = [E.virt[7]] + Kb(E.virt[4:7], None) + [E.k(0)]*5 + [M[r][c]/d for c in range(3) for r in range(3)]
    def rot2(E, q):
        x, y, z, w = q; t = E.k(2)
        return [[w*w + x*x - y*y - z*z, t*(x*y - w*z), t*(x*z + w*y)], [t*(x*y + w*z), w*w - x*x + y*y - z*z, t*(y*z - w*x)], [t*(x*z - w*y), t*(y*z + w*x), w*w - x*x - y*y + z*z]]
    def nz(E):
        if not E.conc: return
        if sum((x.const()**2 for x in E.virt[:4]), Fr(0)) == 0: E.skip = True; return True
    def spec1(E):
        q = E.virt[:4]; d = q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]; n = E.virt[4:7]; M = rot2(E, q)
        v = [M[r][0]*n[0] + M[r][1]*n[1] + M[r][2]*n[2] for r in range(3)]
        E.eq('band 0', E.of[0], E.virt[7])
        for i, e in enumerate((-v[1], v[2], -v[0])): E.eq(f'band 1 coefficient {i}', E.of[1+i], e/d)
        for i in range(5): E.near(f'band 2 zero {i}', E.of[4+i], E.k(0), Fr(1, 10**6))
    def wrap(der):
        def g(E):
            if nz(E): E.f = [E.k(0)]*18; return
            der(E)
        return g
    hs.append(H('rotate_band1', R3, spec1, nf=18, nvirt=8, nof=9, derive=wrap(der1), cfgs=C, tol=1e-4))
    S3 = f32(math.sqrt(3)); 
    def k2(E, n, h):    # band 2 of direction n with h = |n|^2
        x, y, z = n; return [x*y, -(y*z), (E.k(3)*z*z - h)*E.k(1/(2*S3)), -(x*z), (x*x - y*y)*E.k(Fr(1, 2))]
    def der2(E):
        q = E.virt[:4]; d = q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]; E.positive(d)
        n = E.virt[4:7]; h = n[0]*n[0] + n[1]*n[1] + n[2]*n[2]; M = rot2(E, q)
        E.f = [E.k(0)]*4 + k2(E, n, h) + [M[r][c]/d for c in range(3) for r in range(3)]
    def spec2(E):
        q = E.virt[:4]; d = q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]; n = E.virt[4:7]; M = rot2(E, q)
        h = n[0]*n[0] + n[1]*n[1] + n[2]*n[2]
        v = [M[r][0]*n[0] + M[r][1]*n[1] + M[r][2]*n[2] for r in range(3)]
        e = k2(E, v, h*d*d)
        # float constants (sqrt(3), sqrt(1/2)) are 24-bit: compare up to 1e-5 relative to |n|^2
        for i in range(5): E.near(f'band 2 coefficient {i}', E.of[4+i], e[i]/(d*d), Fr(1, 10**5))
        for i in range(3): E.near(f'band 1 zero {i}', E.of[1+i], E.k(0), Fr(1, 10**6))
    def pre2(E):
        q = E.virt[:4]; d = q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]
        E.unitbox(E.virt); E.assume(E.le(1, d)); E.assume(E.le(1, d*d)); E.assume(E.le(1, d*d*d*d))      # scaling q does not change the rotation
    hs.append(H('rotate_band2', R3, spec2, nf=18, nvirt=7, nof=9, derive=wrap(der2), pre=pre2, cfgs=C, tol=1e-4))
    def spec(E):
        for k in range(9): E.eq(f'rotation in place {k}', E.of[k], E.of[9+k])
    hs.append(H('rotate_inplace', 'for (int k = 0; k < 9; k++) of[k] = f[k]; float3x3 m = M33(f+9); sh::rotateSh3Bands(of, m, of); sh::rotateSh3Bands(f, m, of+9);', spec, nf=18, nof=18, cfgs=C))
    # windowing
    def sinc(E, l, w):
        if l == 0: return E.k(1)
        x = E.k(f32(math.pi)*l)/w; s = E.libm('sin', x)/x
        return E.ite(E.le(w, E.k(l)), E.k(0), s*s*s*s)
    wpos = lambda E: E.assume(E.lt(E.k(0), E.f[9]))
    def spec(E):
        for l in range(3):
            for m in range(-l, l + 1): E.eq(f'band {l} m {m}', E.of[l*(l+1)+m], E.f[l*(l+1)+m]*sinc(E, l, E.f[9]))
            E.eq(f'sincWindow {l}', E.of[9+l], sinc(E, l, E.f[9]))
    hs.append(H('windowing', 'for (int k = 0; k < 9; k++) of[k] = f[k]; sh::windowing(of, f[9]); for (int l = 0; l < 3; l++) of[9+l] = sh::sincWindow(l, f[9]);', spec, nf=10, nof=12, pre=wpos, cfgs=C, posv=[9]))
    sp = math.sqrt(math.pi); ca = [1/(2*sp), -math.sqrt(3)/(2*sp), math.sqrt(3)/(2*sp), -math.sqrt(3)/(2*sp), math.sqrt(15)/(2*sp), -math.sqrt(15)/(2*sp), math.sqrt(5)/(4*sp), -math.sqrt(15)/(2*sp), math.sqrt(15)/(4*sp)]
    box = lambda n: (lambda E: [(E.assume(E.le(E.k(-2), E.f[i])), E.assume(E.le(E.f[i], E.k(2)))) for i in range(n)])
    def spec(E):
        for i in range(9):
            for c in range(4): E.near(f'coefficient {i} lane {c}', E.of[4*i+c], E.f[4*i+c]*E.k(Fr(ca[i]/math.pi)), Fr(1, 10**6))
    hs.append(H('shader_preprocess', 'f32x4 s[9]; for (int k = 0; k < 9; k++) s[k] = S4(f+4*k); sh::shaderPreprocessSH(s); for (int k = 0; k < 9; k++) P(of+4*k, s[k]);', spec, nf=36, nof=36, pre=box(36), cfgs=C))
    # solid angles
    def spec(E):
        x, y = E.f[0], E.f[1]
        E.eq('quadrant', E.of[0], E.libm('atan2', x*y, E.sqrt(x*x + y*y + E.k(1))))
    hs.append(H('quadrant_area', 'of[0] = sh::sphereQuadrantArea(f[0], f[1]);', spec, nf=2, nof=1, cfgs=C))
    def spec(E):
        s, t, d = E.f[:3]
        a = lambda x, y: E.libm('atan2', x*y, E.sqrt(x*x + y*y + E.k(1)))
        E.eq('solid angle', E.of[0], a(s-d, t-d) - a(s-d, t+d) - a(s+d, t-d) + a(s+d, t+d))
        E.eq('quarters', E.of[0], E.of[1] + E.of[2] + E.of[3] + E.of[4])
    hs.append(H('solid_angle', 'float2 s = F2(f); float d = f[2]; of[0] = sh::calcSolidAngle(s, d); float h = d * 0.5f; of[1] = sh::calcSolidAngle(float2(s.x-h, s.y-h), h); of[2] = sh::calcSolidAngle(float2(s.x+h, s.y-h), h); of[3] = sh::calcSolidAngle(float2(s.x-h, s.y+h), h); of[4] = sh::calcSolidAngle(float2(s.x+h, s.y+h), h);', spec, nf=3, nof=5, cfgs=C, tol=1e-4))
    # ---- deringing: the real loop against the bisection of its definition; the minimum search answers anything
    DER = """f32x4 s[9]; for (int k = 0; k < 9; k++) s[k] = S4(f+4*k);
        float cut = 13.0f; for (int c = 0; c < 3; c++) { float l = 3.0f, r = cut;
            for (int n = 0; n < 16 && l + 0.1f < r; n++) { float m = 0.5f*(l + r), w[9]; for (int k = 0; k < 9; k++) w[k] = f[4*k+c]; sh::windowing(w, m); if (sh::shmin(w) < 0.0f) r = m; else l = m; }
            if (l < cut) cut = l; }
        sh::deringingSH(s); for (int k = 0; k < 9; k++) P(of+4*k, s[k]); of[36] = cut; of[37] = sh::sincWindow(1, cut); of[38] = sh::sincWindow(2, cut);"""
    def oracle(free):
        def h(c, args, I):
            w = [c.toR(c.raw_load(args[0] + 4*k, 4)) for k in range(9)]
            if not hasattr(c, 'orc'): c.orc = {}; c.orn = {}
            key = tuple(str(x) for x in w)
            if key not in c.orc:
                ch = next((q for q in range(3) if str(w[0]) == str(c.toR(c.inf[q]))), 3); n = c.orn.get(ch, 0); c.orn[ch] = n + 1
                c.orc[key] = c.branch(c.rcmp('lt', c.inv[free[(ch, n)]], c.rc(0))) if (ch, n) in free else (n % 2 == 1 and ch < 3 and len(free) > 8)
            return c.rc(-1) if c.orc[key] else c.rc(1)
        return h
    def spec(E):
        for l in range(3):
            w = [E.k(1), E.of[37], E.of[38]][l]
            for m in range(-l, l + 1):
                k = l*(l+1) + m
                for a in range(4): E.eq(f'band {l} m {m} lane {a}', E.of[4*k+a], E.f[4*k+a]*w)
    def rings(rng):
        v = [rng.uniform(-1, 1) for _ in range(36)]; a = rng.uniform(0, 3)
        for q in range(3): v[q] = abs(v[q]) + a
        return [fbits(x) for x in v], []
    fr = [{(q, n): n for n in range(7 if tier == 'thorough' else 5)} for q in range(3)] + [{(q, n): 2*q + n for q in range(3) for n in range(2)} | {(9, n): 6 for n in range(3)}]
    for q in range(4):
        hs.append(H(f'dering_{q}', DER, spec, nf=36, nof=39, nvirt=7, cfgs=['sse2'] if q else C, tol=1e-4, head=HD, search=rings,
            opts={'hooks': {'_ZN4math2shL5shminEPf': oracle(fr[q])}, 'maxpaths': 400, 'novalidate': True}))
    # the minimum of a window without x/y tilt: f(z, phi) = a z^2 + b z + c at its lowest phi
    for s2, k4, k8 in ((1, 0, 0), (Fr(-1, 2), 0, 0), (-1, 1, 0), (Fr(1, 2), 0, -1), (-2, 0, 1), (1, Fr(-1, 2), 0), (1, Fr(3, 4), Fr(-1)), (-1, Fr(-3, 4), Fr(1)), (1, Fr(-1, 2), Fr(-3, 8))):
        for nd in ('none', 'yz', 'xz') if k4 == k8 == 0 else ('none',):
            def abc(E, s2=Fr(s2), m=Fr(math.sqrt(k4*k4 + k8*k8))):
                s0, s6 = E.f[:2]; C_ = lambda i: E.k(Fr(ca[i])); m2 = E.k(Fr(ca[8])*m)
                return E.k(3)*C_(6)*s6 + m2, E.k(Fr(ca[2])*s2), C_(0)*s0 - C_(6)*s6 - m2
            def low(E, a, b, c):
                convex = E.AND(E.lt(E.k(0), a), E.le(E.abs(b), E.k(2)*a))
                if E.c.branch(convex) if not E.conc else convex: return c - b*b/(E.k(4)*a)
                return a + c - E.abs(b)
            def pre(E, abc=abc, low=low, nd=nd):
                for x in E.f[:2]: E.assume(E.AND(E.le(E.k(-2), x), E.le(x, E.k(2))))
                a, b, c = abc(E)
                if nd == 'none': E.assume(E.le(E.k(Fr(1, 8)), E.abs(a))); E.assume(E.le(E.k(Fr(1, 1000)), E.abs(E.abs(b) - E.k(2)*a)))
                else:
                    E.assume(E.le(E.k(Fr(1, 8)), E.abs(a))); d = E.k(Fr(ca[4])/4)
                    E.assume(E.le(E.k(Fr(1, 100)), low(E, a, b, c) - d*E.k(Fr(1, 2))))
            def spec(E, abc=abc, low=low, nd=nd):
                m = low(E, *abc(E))
                if nd == 'none': E.near('minimum', E.of[0], m, Fr(1, 2000))
                else: E.near('lower bound', E.of[0], m - E.k(Fr(ca[4])/8), Fr(1, 2000))
            hs.append(H(f'minimum_{s2}_{k4}_{k8}_{nd}'.replace('/', 'd').replace('-', 'm'), f'float w[9] = {{f[0], 0, {float(s2)}f, 0, {float(k4)}f, {"0.25f" if nd == "yz" else "0"}, f[1], {"-0.25f" if nd == "xz" else "0"}, {float(k8)}f}}; of[0] = sh::shmin(w);', spec, nf=2, nof=1, pre=pre, cfgs=C, tol=1e-3, opts={'noalt': ('neon', 'scalar'), 'sqrtconst': 'bounds'}))
    return hs
