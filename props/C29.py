"""C29: mip chains, cubemap texel directions, BRDF sampling helpers."""
from fractions import Fraction as Fr
import math, struct
from vf import H
META = dict(
 title='Mip sizes, cubemap directions and BRDF sampling follow their definitions',
 statement='calcMipCount(size) is floor(log2(largest dimension)) + 1 and calcSizeAtMip(size, mip) is max(size >> mip, 1) per dimension, so mip calcMipCount - 1 is the first whose size is 1 everywhere. coordsToST maps texel centres to 1 - 2 (c + 0.5) / size, and stToDir / coordsToDir return the unit direction of the standard cubemap face layout. '
   'ggx is the Trowbridge-Reitz density, hammersley pairs index / count with the bit reversed index over 2^32, importanceSamplingNdfDggx returns a unit vector of the upper hemisphere with azimuth 2 pi u.x and the GGX polar angle, and iorToReflectance is |ior - 1| / (0.4 (ior + 1)).',
 long=True,
 quant='all 32 bit sizes, mips 0 to 31, all texel coordinates, all ST coordinates and faces, all sample indices, all roughness values in (0, 1]', over=['inputs'],
 why='errors at powers of two, a flipped axis of a single face or a wrong swap stage show only for particular sizes, faces or indices',
 files=['include/math/ibl.hpp', 'include/math/brdf.hpp', 'include/math/vector/uint.hpp', 'include/math/simd/vector/uint.hpp'],
 mech=[('calcMipCount, calcSizeAtMip', 'include/math/vector/uint.hpp'), ('calcMipCount3, calcSizeAtMip3', 'include/math/simd/vector/uint.hpp'), ('coordsToST, stToDir, coordsToDir', 'include/math/ibl.hpp'), ('ggx, hammersley, importanceSamplingNdfDggx, iorToReflectance', 'include/math/brdf.hpp')],
 note='calcSizeAtMip with mip >= 32 is outside the domain (no such mip exists). exp2f of integers 0 to 31 is taken from the C library.')
EXPLAIN = 'Integer functions run on bit vectors for all 32 bit inputs (one path per mip level); the float functions run on symbolic reals.'
ASSUME = ['real arithmetic for directions and densities', 'sin and cos uninterpreted up to sin^2 + cos^2 = 1']
BOUNDS = ['mip 0..31', 'size >= 1']
def harnesses(tier):
    hs = []; C = ['sse2', 'haswell']; C3 = ['sse2', 'sse41', 'haswell']
    # ---- mips
    pos = lambda n: (lambda E: [E.assume(E.i[k].ne(0)) for k in range(n)])
    def umax(E, ws):
        r = ws[0]
        for w in ws[1:]: r = W_(E, E.sel(r.ult(w), w.v, r.v))
        return r
    def W_(E, v): return E.w(v)
    def cnt(E, w):
        # number of significant bits
        r = E.w(1).v
        for k in range(1, 32): r = E.sel(w.ult(1 << k), r, k + 1)
        return E.w(r)
    def mipc(name, expr, n, cfgs):
        def spec(E): E.weq('mip count', E.oi[0], cnt(E, umax(E, E.i[:n])))
        hs.append(H(name, f'oi[0] = (int){expr};', spec, ni=n, noi=1, mode='bits', pre=pos(n), cfgs=cfgs, opts={'maxpaths': 400}))
    mipc('mipcount', 'calcMipCount((uint32)i[0])', 1, C); mipc('mipcount2', 'calcMipCount(U2(i))', 2, C); mipc('mipcount3', 'calcMipCount(U3(i))', 3, ['sse2'])
    mipc('mipcount_simd', 'calcMipCount3(u32x4((uint32)i[0], (uint32)i[1], (uint32)i[2]))', 3, C3)
    def prem(n):
        def p(E):
            E.assume(E.i[n].ult(32))
            if not isinstance(E.i[n].v, int): E.i[n] = E.w(E.c.concretize(E.i[n].v, 32))
        return p
    def sizem(name, code, n, cfgs):
        def spec(E):
            m = E.i[n]
            for k in range(n):
                s = E.i[k].shr(m); E.weq(f'size {k}', E.oi[k], E.w(E.sel(s.eq(0), 1, s.v)))
        hs.append(H(name, code, spec, ni=n+1, noi=n, mode='bits', pre=prem(n), cfgs=cfgs, opts={'maxpaths': 400}, intrange={n: (0, 31)}))
    sizem('mipsize', 'oi[0] = (int)calcSizeAtMip((uint32)i[0], (uint8)i[1]);', 1, C)
    sizem('mipsize2', 'P(oi, calcSizeAtMip(U2(i), (uint8)i[2]));', 2, C)
    sizem('mipsize3', 'P(oi, calcSizeAtMip(U3(i), (uint8)i[3]));', 3, ['sse2'])
    sizem('mipsize_simd', 'auto r = calcSizeAtMip3(u32x4((uint32)i[0], (uint32)i[1], (uint32)i[2]), (uint8)i[3]); oi[0] = (int)r.getX(); oi[1] = (int)r.getY(); oi[2] = (int)r.getZ();', 3, C3)
    # ---- cubemap
    def spec(E):
        for k in range(2):
            c = E.f[k]; E.eq(f'st {k}', E.of[k], E.k(1) - E.k(2)*(c + E.k(Fr(1, 2)))*E.f[2])
    # the integer coordinates enter through float conversion: any integer value
    hs.append(H('coords_st', 'uint2 c((uint32)i[0], (uint32)i[1]); P(of, ibl::coordsToST(c, f[0])); of[2] = (float)(uint32)i[0]; of[3] = (float)(uint32)i[1];',
        lambda E: [E.eq(f'st {k}', E.of[k], E.k(1) - E.k(2)*(E.of[2+k] + E.k(Fr(1, 2)))*E.f[0]) for k in range(2)], nf=1, ni=2, nof=4, cfgs=C, intrange={0: (0, 16383), 1: (0, 16383)},
        gen=lambda rng: ([Fr(1, 2**rng.randint(3, 12))], [rng.randint(0, 4000), rng.randint(0, 4000)])))
    FACE = [lambda s, t: (1, t, s), lambda s, t: (-1, t, -s), lambda s, t: (-s, 1, -t), lambda s, t: (-s, -1, t), lambda s, t: (-s, t, 1), lambda s, t: (s, t, -1)]
    def face(E, k, s, t):
        d = [E.k(x) if isinstance(x, int) else x for x in FACE[k](s, t)]
        return d
    def dirspec(E, of, k, s, t):
        d = face(E, k, s, t); l = E.sqrt(s*s + t*t + E.k(1))
        for a in range(3): E.eq(f'face {k} axis {a}', of[a]*l, d[a])
        E.eq(f'face {k} unit', of[0]*of[0] + of[1]*of[1] + of[2]*of[2], E.k(1))
    for k in range(6):
        hs.append(H(f'dir_{k}', f'P(of, ibl::stToDir(F2(f), {k}u));', (lambda k: lambda E: dirspec(E, E.of, k, E.f[0], E.f[1]))(k), nf=2, nof=3, cfgs=C if k == 0 else ['sse2']))
    def spec(E):
        # a symbolic face index reaches the right case
        ints = E.i[0].v
        for k in range(6):
            if isinstance(ints, int) and ints == k: dirspec(E, E.of, k, E.f[0], E.f[1])
    def pref(E):
        E.assume(E.i[0].ult(6))
        if not isinstance(E.i[0].v, int): E.i[0] = E.w(E.c.concretize(E.i[0].v, 32))
    hs.append(H('dir_any', 'P(of, ibl::stToDir(F2(f), (uint32)i[0]));', spec, nf=2, ni=1, nof=3, pre=pref, intrange={0: (0, 5)}, cfgs=['sse2']))
    def spec(E):
        k = E.i[0].v; st = [E.k(1) - E.k(2)*(E.of[3+q] + E.k(Fr(1, 2)))*E.f[0] for q in range(2)]
        if isinstance(k, int): dirspec(E, E.of, k, *st)
    hs.append(H('coords_dir', 'uint3 c((uint32)i[1], (uint32)i[2], (uint32)i[0]); P(of, ibl::coordsToDir(c, f[0])); of[3] = (float)(uint32)i[1]; of[4] = (float)(uint32)i[2];', spec, nf=1, ni=3, nof=5, pre=pref, cfgs=['sse2'],
        intrange={0: (0, 5), 1: (0, 16383), 2: (0, 16383)}, gen=lambda rng: ([Fr(1, 2**rng.randint(3, 12))], [rng.randint(0, 5), rng.randint(0, 4000), rng.randint(0, 4000)])))
    # ---- BRDF
    PI = Fr(struct.unpack('<f', struct.pack('<f', math.pi))[0])
    def unit01(E, v, strict=False): E.assume((E.lt if strict else E.le)(0, v)); E.assume(E.le(v, 1))
    def spec(E):
        x, a = E.f; g = (a*a - E.k(1))*x*x + E.k(1)
        E.eq('density', E.of[0]*E.k(PI)*g*g, a*a)
    def pre(E): unit01(E, E.f[1], True); unit01(E, E.f[0])
    hs.append(H('ggx', 'of[0] = brdf::ggx(f[0], f[1]);', spec, nf=2, nof=1, pre=pre, cfgs=C, gen=lambda rng: ([Fr(rng.randint(0, 16), 16), Fr(rng.randint(1, 16), 16)], [])))
    def spec(E):
        x = E.i[0]; r = E.w(0)
        rev = E.w(E.c.cat([(E.c.extract(x.v, 32, 31 - k, 1), 1) for k in range(32)])) if not isinstance(x.v, int) else E.w(int(f'{x.v:032b}'[::-1], 2))
        E.weq('radical inverse', E.w(E.of[1]), E.w(E.fmul(E.itof(rev, False), E.F(2.0**-32))))
        E.weq('first coordinate', E.w(E.of[0]), E.w(E.fmul(E.itof(x, False), E.f[0])))
    hs.append(H('hammersley', 'P(of, brdf::hammersley((uint32)i[0], f[0]));', spec, nf=1, ni=1, nof=2, mode='bits', cfgs=C, pre=lambda E: (E.assume(E.fcmp('olt', E.f[0], E.F(2.0))), E.assume(E.fcmp('ogt', E.f[0], 0)))))
    def spec(E):
        u, v, a = E.f; x, y, z = E.of[:3]
        c2 = (E.k(1) - v)/(E.k(1) + (a*a - E.k(1))*v); phi = E.k(2*PI)*u
        E.eq('polar angle', z*z, c2); E.le_('upper hemisphere', E.k(0), z)
        s = E.sqrt(E.k(1) - c2); E.eq('x', x, s*E.libm('cos', phi)); E.eq('y', y, s*E.libm('sin', phi))
        E.eq('unit', x*x + y*y + z*z, E.k(1))
    def pre(E):
        u, v, a = E.f; unit01(E, a, True); E.assume(E.le(0, v)); E.assume(E.lt(v, 1))
        E.positive(E.k(1) + (a*a - E.k(1))*v)
    hs.append(H('ndf_sample', 'P(of, brdf::importanceSamplingNdfDggx(F2(f), f[2]));', spec, nf=3, nof=4, pre=pre, cfgs=C, opts={'sqrtneg': 'assume'},
        gen=lambda rng: ([Fr(rng.randint(0, 16), 16), Fr(rng.randint(0, 15), 16), Fr(rng.randint(1, 16), 16)], [])))
    def spec(E):
        n = E.f[0]; E.near('reflectance', E.of[0]*E.k(Fr(2, 5))*(n + E.k(1)), E.abs(n - E.k(1)), Fr(1, 10**4))
    hs.append(H('ior', 'of[0] = brdf::iorToReflectance(f[0]);', spec, nf=1, nof=1, pre=lambda E: (E.assume(E.lt(Fr(1, 10), E.f[0])), E.assume(E.le(E.f[0], 16))), cfgs=C, gen=lambda rng: ([Fr(rng.randint(4, 64), 16)], [])))
    return hs
