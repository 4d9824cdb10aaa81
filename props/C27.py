"""C27: color spaces and gamma."""
from fractions import Fraction as Fr
import struct
from vf import H
META = dict(
 title='Color space conversions follow their definitions and invert each other',
 statement='rgbToSrgb and srgbToRgb are the two-piece sRGB transfer curves per RGB channel with alpha unchanged, and Color::toLinear/fromLinear apply them to the normalized channels. '
   'rgbToXyz is the linear sRGB (D65) to CIE XYZ matrix, so white maps to (0.9505, 1, 1.089), and xyzToRgb is its inverse. '
   'xyzToYxy gives (Y, X/(X+Y+Z), Y/(X+Y+Z)), yxyToXyz inverts it, the rgb forms are their compositions, and fastGammaCorrection raises RGB to 1/gamma by fastPow keeping alpha.',
 long=True,
 quant='every color (matrix inverse: components within [-2, 2], 1e-4; Yxy: nonzero sum, positive y)', over=['inputs', 'configurations'],
 why='a transposed matrix or swapped channel keeps grey or primaries plausible; samples with equal channels hide it',
 files=['include/math/color-space.hpp', 'include/math/tone-mapping.hpp', 'include/math/color.hpp'],
 mech=[('rgbToSrgb, srgbToRgb, rgbToXyz, xyzToRgb, xyzToYxy, yxyToXyz', 'include/math/color-space.hpp'), ('fastGammaCorrection', 'include/math/tone-mapping.hpp')],
 note='std::pow is an uninterpreted function (the exponent and base given to it are checked); real arithmetic otherwise.')
EXPLAIN = 'Conversions run on symbolic reals and are compared with the standard formulas.'
ASSUME = ['real arithmetic; std::pow is correct']
BOUNDS = ['matrix inverse for |components| <= 2']
f32 = lambda x: Fr(struct.unpack('<f', struct.pack('<f', x))[0])
def harnesses(tier):
    hs = []; C = ['sse2', 'haswell']
    k = lambda E, x: E.k(f32(x))
    def tosrgb(E, x):
        p = E.libm('pow', x, k(E, f32(1.0)/f32(2.4))) if False else E.libm('pow', x, k(E, float(f32(1.0)/f32(2.4))))
        return E.ite(E.le(x, k(E, 0.0031308)), x*k(E, 12.92), p*k(E, 1.055) - k(E, 0.055))
    def torgb(E, x):
        inv = k(E, float(1/f32(1.055)))
        return E.ite(E.le(x, k(E, 0.04045)), x*k(E, float(1/f32(12.92))), E.libm('pow', (x + k(E, 0.055))*inv, k(E, 2.4)))
    nonneg = lambda E: [E.assume(E.le(E.k(0), E.f[i])) for i in range(3)]
    def spec(E):
        for i in range(3): E.eq(f'srgb {i}', E.of[i], tosrgb(E, E.f[i]))
        E.eq('alpha', E.of[3], E.f[3])
    hs.append(H('rgbToSrgb', 'P(of, rgbToSrgb(S4(f)));', spec, nf=4, nof=4, pre=nonneg, cfgs=C, box=1))
    def spec(E):
        for i in range(3): E.eq(f'rgb {i}', E.of[i], torgb(E, E.f[i]))
        E.eq('alpha', E.of[3], E.f[3])
    hs.append(H('srgbToRgb', 'P(of, srgbToRgb(S4(f)));', spec, nf=4, nof=4, pre=nonneg, cfgs=C, box=1))
    M = [[.4124564, .3575761, .1804375], [.2126729, .7151522, .0721750], [.0193339, .1191920, .9503041]]
    box = lambda E: [(E.assume(E.le(E.k(-2), E.f[i])), E.assume(E.le(E.f[i], E.k(2)))) for i in range(3)]
    def spec(E):
        for r in range(3): E.near('XYZ'[r], E.of[r], sum((E.k(Fr(str(M[r][c])))*E.f[c] for c in range(3)), E.k(0)), Fr(1, 5000))
        for r in range(3): E.near('rgb->xyz->rgb ' + 'rgb'[r], E.of[3+r], E.f[r], Fr(1, 5000))
        for r in range(3): E.near('xyz->rgb->xyz ' + 'xyz'[r], E.of[6+r], E.f[r], Fr(1, 5000))
    hs.append(H('xyz', 'f32x4 v = S3(f); P3(of, rgbToXyz(v)); P3(of+3, xyzToRgb(rgbToXyz(v))); P3(of+6, rgbToXyz(xyzToRgb(v)));', spec, nf=3, nof=9, pre=box, cfgs=C, tol=1e-5))
    def pre(E): E.assume(E.NOT(E.eqc(E.f[0] + E.f[1] + E.f[2], 0))); E.assume(E.NOT(E.eqc(E.f[1], 0)))
    def spec(E):
        X, Y, Z = E.f[:3]; s = X + Y + Z
        E.eq('Y', E.of[0], Y); E.eq('x', E.of[1]*s, X); E.eq('y', E.of[2]*s, Y)
        for r in range(3): E.eq('inverse ' + 'XYZ'[r], E.of[3+r], E.f[r])
    hs.append(H('yxy', 'f32x4 v = S3(f), y = xyzToYxy(v); P3(of, y); P3(of+3, yxyToXyz(y));', spec, nf=3, nof=6, pre=pre, cfgs=C))
    def pre(E): E.assume(E.NOT(E.eqc(E.f[2], 0)))
    def spec(E):
        Y, x, y = E.f[:3]
        E.eq('X', E.of[0]*y, Y*x); E.eq('Y', E.of[1], Y); E.eq('Z', E.of[2]*y, Y*(E.k(1) - x - y))
    hs.append(H('yxy_back', 'P3(of, yxyToXyz(S3(f)));', spec, nf=3, nof=3, pre=pre, cfgs=C))
    def pre(E):
        for r in range(3): E.assume(E.lt(E.k(Fr(1, 100)), E.f[r])); E.assume(E.le(E.f[r], E.k(2)))
    def spec(E):
        X, Y, Z = [sum((E.k(Fr(str(M[r][c])))*E.f[c] for c in range(3)), E.k(0)) for r in range(3)]
        s = X + Y + Z
        E.near('Y', E.of[0], Y, Fr(1, 1000)); E.near('x', E.of[1]*s, X, Fr(1, 500)); E.near('y', E.of[2]*s, Y, Fr(1, 500))
    hs.append(H('rgb_yxy', 'P3(of, rgbToYxy(S3(f)));', spec, nf=3, nof=3, pre=pre, cfgs=C, tol=1e-5))
    def pre(E): E.assume(E.NOT(E.eqc(E.f[2], 0)))
    def spec(E):
        for r in range(3): E.eq(f'yxyToRgb {r}', E.of[r], E.of[3+r])
    hs.append(H('yxy_rgb', 'P3(of, yxyToRgb(S3(f))); P3(of+3, xyzToRgb(yxyToXyz(S3(f))));', spec, nf=3, nof=6, pre=pre, cfgs=C))
    # gamma and Color
    def spec(E):
        for g in (0, 4):
            for r in range(3): E.beq(f'gamma {g} {r}', E.of[g+r], E.of[8+g+r])
            E.beq(f'gamma {g} alpha', E.of[g+3], E.f[3])
    hs.append(H('gamma_correction', 'f32x4 v = S4(f); P(of, fastGammaCorrection(v)); P(of+4, fastGammaCorrection(v, f[4])); P(of+8, fastPow(v, f32x4(1.0f / 2.2f))); P(of+12, fastPow(v, f32x4(f[4])));', spec, mode='bits', nf=5, nof=16, cfgs=C, opts={'noalt': ('neon', 'scalar')}))
    def spec(E):
        for r in range(3): E.near(f'toLinear {r}', E.of[r], torgb(E, E.of[4+r]), Fr(1, 10**6))
        E.near('alpha', E.of[3], E.of[7], Fr(1, 10**6))
    hs.append(H('toLinear', 'Color c((uint8)i[0], (uint8)i[1], (uint8)i[2], (uint8)i[3]); P(of, c.toLinear()); P(of+4, (f32x4)c);', spec, mode='real', nf=0, ni=4, nof=8, intrange={0: (0, 255), 1: (0, 255), 2: (0, 255), 3: (0, 255)}, cfgs=['haswell'], opts={'noalt': ('scalar', 'neon')}))
    def spec(E):
        for r in range(4): E.weq(f'fromLinear {r}', E.oi[r], E.oi[4+r])
    hs.append(H('fromLinear', 'f32x4 v = S4(f); Color a = Color::fromLinear(v), b(rgbToSrgb(v)); oi[0] = a.r; oi[1] = a.g; oi[2] = a.b; oi[3] = a.a; oi[4] = b.r; oi[5] = b.g; oi[6] = b.b; oi[7] = b.a;', spec, mode='bits', nf=4, noi=8, cfgs=['haswell'], opts={'noalt': ('scalar', 'neon')}))
    return hs
