"""C26: the 8-bit Color: conversions, text, comparisons, constants."""
import itertools
from vf import H
import C24
META = dict(
 title='Color stores 8-bit channels and converts them without loss or bias',
 statement='Float colors (float2/3/4, f32x4 constructors and setNormR/G/B/A) are clamped to 0..1 and rounded to the nearest of the 256 levels, missing channels are 0, and byte -> normalized float -> byte gives every level back through constructors and accessors alike; getNorm and the float conversions are channel/255. '
   'The 32-bit binary form, the hex text (RRGGBB or RRGGBBAA, read back by the string constructor) and the decimal text list the channels in R, G, B, A order. '
   '== is equality of all channels, < > <= >= hold when they hold for every channel, isBinaryLess is a strict total order, and the named constants have their colors.',
 long=True,
 quant='every channel byte, every float (NaN excluded) and every pair/triple of colors', over=['inputs'],
 why='rounding or channel-order slips show at single levels only',
 files=['include/math/color.hpp'],
 mech=[('struct Color', 'include/math/color.hpp'), ('isBinaryLess', 'include/math/color.hpp')],
 note='Exact IEEE arithmetic; rounding is required to be nearest up to 0.0005 of a level, so how ties are broken is free.')
EXPLAIN = 'Channel bytes and float bits are bit-vectors; libstdc++ string code is executed symbolically.'
ASSUME = ['NaN inputs excluded', 'strtoul follows the C standard']
ALT = {'quick': (), 'thorough': ('scalar', 'neon')}
BOUNDS = ['none beyond the types (quick: four-channel decimal text for 3 of the 9 digit-count combinations of the first two channels)']
HEAD = C24.HEAD
def harnesses(tier):
    hs = []; C = ['sse2', 'haswell']; C1 = ['haswell']
    byt = lambda *ks: {k: (0, 255) for k in ks}
    def near(E, name, r, v):
        s = E.fmul(v, E.F(255.0)); rf = E.itof(r)
        mid = E.AND(E.fcmp('ole', E.fsub(rf, E.F(0.5005)), s), E.fcmp('ole', s, E.fadd(rf, E.F(0.5005))))
        lo, hi = E.fcmp('ole', v, E.F(0.0)), E.fcmp('oge', v, E.F(1.0))
        E.true(name + ' within 0..255', r.ule(255))
        E.true(name + ' nearest', E.OR(E.AND(lo, r.eq(0)), E.AND(hi, r.eq(255)), E.AND(E.NOT(lo), E.NOT(hi), mid)))
    num = lambda n: (lambda E: [E.assume(E.NOT(E.isnan(E.f[k]))) for k in range(n)])
    OUT = ' oi[0] = c.r; oi[1] = c.g; oi[2] = c.b; oi[3] = c.a;'
    for T, n, ctor in (('float2', 2, 'F2(f)'), ('float3', 3, 'F3(f)'), ('float4', 4, 'F4(f)'), ('f32x4', 4, 'S4(f)')):
        def spec(E, n=n):
            for k in range(n): near(E, 'rgba'[k], E.oi[k], E.f[k])
            for k in range(n, 4): E.weq('rgba'[k] + ' empty', E.oi[k], 0)
        hs.append(H(f'from_{T}', f'Color c({ctor});' + OUT, spec, mode='bits', nf=n, noi=4, pre=num(n), cfgs=C))
    def spec(E):
        for k in range(4):
            near(E, 'setNorm' + 'RGBA'[k], E.oi[k], E.f[k])
            for j in range(4):
                if j != k: E.weq(f'setNorm{"RGBA"[k]} keeps {"rgba"[j]}', E.oi[4+4*k+j], E.i[j])
    hs.append(H('setnorm', 'Color c((uint8)i[0], (uint8)i[1], (uint8)i[2], (uint8)i[3]); Color d = c, e; '
        'd.setNormR(f[0]); oi[0] = d.r; std::memset(oi+4, 0, 64); oi[5] = d.g; oi[6] = d.b; oi[7] = d.a; '
        'd = c; d.setNormG(f[1]); oi[1] = d.g; oi[8] = d.r; oi[10] = d.b; oi[11] = d.a; '
        'd = c; d.setNormB(f[2]); oi[2] = d.b; oi[12] = d.r; oi[13] = d.g; oi[15] = d.a; '
        'd = c; d.setNormA(f[3]); oi[3] = d.a; oi[16] = d.r; oi[17] = d.g; oi[18] = d.b;', spec, mode='bits', nf=4, ni=4, noi=20, pre=num(4), intrange=byt(0, 1, 2, 3), cfgs=C))
    # byte -> float -> byte, and channel / 255
    def spec(E):
        for k in range(4):
            x = E.i[k]
            for g, nm in ((0, 'float4'), (4, 'f32x4'), (8, 'setNorm/getNorm')): E.weq(f'{nm} round trip {"rgba"[k]}', E.oi[g+k], x)
            if k < 3: E.weq(f'float3 round trip {"rgba"[k]}', E.oi[12+k], x)
            if k < 2: E.weq(f'float2 round trip {"rgba"[k]}', E.oi[16+k], x)
            xf = E.itof(x)
            for g, w in ((0, 4), (4, 4), (8, 4), (12, 3), (15, 2)):
                if k < w:
                    t = E.fmul(E.of[g+k], E.F(255.0))
                    E.true(f'value {g} {"rgba"[k]}', E.AND(E.fcmp('ole', E.fsub(xf, E.F(0.001)), t), E.fcmp('ole', t, E.fadd(xf, E.F(0.001)))))
    hs.append(H('roundtrip', 'Color c((uint8)i[0], (uint8)i[1], (uint8)i[2], (uint8)i[3]); float4 v = (float4)c; f32x4 s = (f32x4)c; float3 v3 = (float3)c; float2 v2 = (float2)c; '
        'P(of, v); P(of+4, s); of[8] = c.getNormR(); of[9] = c.getNormG(); of[10] = c.getNormB(); of[11] = c.getNormA(); P(of+12, v3); P(of+15, v2); '
        'Color a(v), b(s), d(v3), e(v2), g; g.setNormR(of[8]); g.setNormG(of[9]); g.setNormB(of[10]); g.setNormA(of[11]); '
        'oi[0] = a.r; oi[1] = a.g; oi[2] = a.b; oi[3] = a.a; oi[4] = b.r; oi[5] = b.g; oi[6] = b.b; oi[7] = b.a; oi[8] = g.r; oi[9] = g.g; oi[10] = g.b; oi[11] = g.a; '
        'oi[12] = d.r; oi[13] = d.g; oi[14] = d.b; oi[15] = d.a; oi[16] = e.r; oi[17] = e.g;', spec, mode='bits', ni=4, nof=17, noi=18, intrange=byt(0, 1, 2, 3), cfgs=C))
    def spec(E):
        r, g, b, a = E.i[:4]; enc = r | g.shl(8) | b.shl(16) | a.shl(24)
        E.weq('binary', E.oi[0], enc)
        for k in range(4):
            E.weq(f'from binary {k}', E.oi[1+k], E.i[4].shr(8*k) & 255); E.weq(f'grey {k}', E.oi[5+k], r); E.weq(f'default {k}', E.oi[9+k], 0)
            E.weq(f'channel {k}', E.oi[13+k], E.i[k])
    hs.append(H('binary', 'Color c((uint8)i[0], (uint8)i[1], (uint8)i[2], (uint8)i[3]), d((uint32)i[4]), e((uint8)i[0]), z; oi[0] = (uint32)c; '
        'oi[1] = d.r; oi[2] = d.g; oi[3] = d.b; oi[4] = d.a; oi[5] = e.r; oi[6] = e.g; oi[7] = e.b; oi[8] = e.a; oi[9] = z.r; oi[10] = z.g; oi[11] = z.b; oi[12] = z.a; oi[13] = c.r; oi[14] = c.g; oi[15] = c.b; oi[16] = c.a;',
        spec, mode='bits', ni=5, noi=17, intrange=byt(0, 1, 2, 3), cfgs=C))
    # comparisons
    def spec(E):
        a, b = E.i[:4], E.i[4:8]; n = E.i[8]
        al = lambda f: E.AND(*[f(x, y) for x, y in zip(a, b)])
        an = lambda f: E.AND(*[f(x, n) for x in a])
        eq, lt, gt = lambda x, y: x.eq(y), lambda x, y: x.ult(y), lambda x, y: y.ult(x)
        le, ge = lambda x, y: x.ule(y), lambda x, y: y.ule(x)
        for k, (nm, f, neg) in enumerate((('==', eq, 0), ('!=', eq, 1), ('<', lt, 0), ('>', gt, 0), ('<=', le, 0), ('>=', ge, 0))):
            for g, v in ((0, al(f)), (6, an(f))): E.iff(f'operator{nm} {g}', E.oi[g+k], E.NOT(v) if neg else v)
            rev = {'<': gt, '>': lt, '<=': ge, '>=': le}.get(nm, f)
            v = an(rev); E.iff(f'byte operator{nm}', E.oi[12+k], E.NOT(v) if neg else v)
        E.iff('isBinaryLess', E.oi[18], E.oi[20].ult(E.oi[21]))
        E.true('isBinaryLess is total', E.OR(al(eq), E.oi[18].ne(0), E.oi[19].ne(0)))
        E.true('isBinaryLess is asymmetric', E.NOT(E.AND(E.oi[18].ne(0), E.oi[19].ne(0))))
    ops = ('==', '!=', '<', '>', '<=', '>=')
    hs.append(H('compare', 'Color a((uint8)i[0], (uint8)i[1], (uint8)i[2], (uint8)i[3]), b((uint8)i[4], (uint8)i[5], (uint8)i[6], (uint8)i[7]); uint8 n = (uint8)i[8]; '
        + ''.join(f'oi[{k}] = a {o} b; oi[{6+k}] = a {o} n; oi[{12+k}] = n {o} a; ' for k, o in enumerate(ops)) + 'oi[18] = isBinaryLess(a, b); oi[19] = isBinaryLess(b, a); oi[20] = (uint32)a; oi[21] = (uint32)b;',
        spec, mode='bits', ni=9, noi=22, intrange=byt(*range(9)), cfgs=C1))
    names = dict(white=(255,)*4, black=(0, 0, 0, 255), grey=None, transparent=(0,)*4, red=(255, 0, 0, 255), green=(0, 255, 0, 255), blue=(0, 0, 255, 255), cyan=(0, 255, 255, 255), magenta=(255, 0, 255, 255), yellow=(255, 255, 0, 255))
    body = ''
    for k, nm in enumerate(names): body += f'{{ Color c = Color::{nm}; oi[{4*k}] = c.r; oi[{4*k+1}] = c.g; oi[{4*k+2}] = c.b; oi[{4*k+3}] = c.a; }} '
    def spec(E):
        for k, (nm, v) in enumerate(names.items()):
            o = E.oi[4*k:4*k+4]
            if v:
                for j in range(4): E.weq(f'{nm} {"rgba"[j]}', o[j], v[j])
            else:
                E.true('grey is grey', E.AND(o[0].eq(o[1]), o[1].eq(o[2]), o[3].eq(255), E.OR(o[0].eq(127), o[0].eq(128))))
    hs.append(H('constants', body, spec, mode='bits', ni=1, noi=40, cfgs=C1))
    # text
    PUT = 'oi[0] = (int)s.size(); for (size_t k = 0; k < s.size() && k < 20; k++) oi[1+k] = (unsigned char)s[k];'
    hexd = lambda E, d: E.w(E.sel(d.ult(10), (d + 48).v, (d + 55).v))
    for n in (3, 4):
        def spec(E, n=n):
            E.weq('length', E.oi[0], 2*n)
            for k in range(n):
                E.weq(f'digit {2*k}', E.oi[1+2*k], hexd(E, E.i[k].shr(4))); E.weq(f'digit {2*k+1}', E.oi[2+2*k], hexd(E, E.i[k] & 15))
            for k in range(4): E.weq(f'read back {"rgba"[k]}', E.oi[20+k], E.i[k] if k < n else 0)
        hs.append(H(f'hex{n}', f'string s = Color((uint8)i[0], (uint8)i[1], (uint8)i[2], (uint8)i[3]).toHex{n}(); ' + PUT + ' Color c(s); oi[20] = c.r; oi[21] = c.g; oi[22] = c.b; oi[23] = c.a;', spec, mode='bits', ni=4, noi=24, intrange=byt(0, 1, 2, 3), cfgs=C1, opts={'maxinst': 4000000}))
    rngs = {1: (0, 9), 2: (10, 99), 3: (100, 255)}
    for n in (1, 2, 3, 4):
        for fixed in itertools.product((1, 2, 3), repeat=max(0, n - 2)):
            if tier == 'quick' and n == 4 and fixed not in ((1, 2), (3, 1), (2, 3)): continue
            def spec(E, n=n, fixed=fixed):
                for L in itertools.product((1, 2, 3), repeat=n - len(fixed)):
                    L = fixed + L
                    cond = E.AND(*[E.AND(E.w(rngs[l][0]).ule(E.i[k]), E.i[k].ule(rngs[l][1])) for k, l in enumerate(L)])
                    if cond is False: continue
                    exp = []
                    for k, l in enumerate(L): exp += ([E.w(32)] if k else []) + C24.digits(E, E.i[k], l)
                    ok = E.oi[0].eq(len(exp))
                    for j, ch in enumerate(exp): ok = E.AND(ok, E.oi[1+j].eq(ch))
                    E.true('text ' + ' '.join('d'*l for l in L), E.IMP(cond, ok))
            ir = byt(0, 1, 2, 3)
            for k, l in enumerate(fixed): ir[k] = rngs[l]
            hs.append(H(f'text_{n}' + ''.join(f'_{l}' for l in fixed), f'for (int k = 0; k < 24; k++) oi[k] = 0; string s = Color((uint8)i[0], (uint8)i[1], (uint8)i[2], (uint8)i[3]).toString{n}(); ' + PUT, spec, mode='bits', ni=4, noi=24, intrange=ir, cfgs=C1, opts={'maxinst': 4000000}))
    return hs
