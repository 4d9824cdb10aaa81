"""C04: scalar float vectors are component-wise IEEE."""
from vf import H
from floatvec import float_vec
META = dict(
 title='Scalar float vectors are component-wise IEEE arithmetic',
 statement='Every operator and function of float2/3/4 and every free scalar helper (min/max of three, sign, repeat, lerp, lerpDelta, gain) acts component by component: '
   'arithmetic, comparison masks (all-ones/zero), equality of all components, min/max/clamp/select (by top mask bit), abs, sqrt, sign, signBits, floor/ceil/trunc/round, fma and the elementary functions equal the scalar IEEE/libm '
   'operation on the same component, for vector-vector, vector-scalar, scalar-vector and compound-assignment forms. repeat maps any value to 0..1 by an integer shift, lerp is a+t(b-a), '
   'lerpDelta is a+(1-f^dt)(b-a), gain is 0.5(2x)^k mirrored about x = 0.5.',
 long=True,
 quant='every value of every component including infinities, signed zeros and NaN (min/max/clamp: no NaN; repeat: |v| <= 1000; lerp/gain over the reals)',
 why='tests sample a few small values of a few operators; a swapped lane, a wrong compound operator or a mishandled negative needs a specific operator and input',
 files=['include/math/vector/float.hpp', 'include/math/common.hpp'],
 mech=[('float2/3/4 operators and element-wise functions', 'include/math/vector/float.hpp'), ('min/max/sign/repeat/lerp/lerpDelta/gain', 'include/math/common.hpp')],
 note='Bit-precise IEEE-754 SMT for arithmetic/comparison/rounding; elementary functions are uninterpreted (same function on the same component); interpolation and repeat/gain over exact reals. Trusts clang IR and the executor (cross-checked against g++ builds).')
EXPLAIN = 'Each operator is executed symbolically on all components and compared lane by lane with the IEEE operation.'
ASSUME = ['libm functions are uninterpreted functions', 'interpolation/repeat/gain are decided over exact real arithmetic (no rounding)']
BOUNDS = ['all 2^32 values per component (bits mode); |v| <= 1000 for repeat']
FN1 = ['exp', 'exp2', 'expm1', 'log', 'log10', 'log2', 'log1p', 'cbrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh']
def harnesses(tier):
    hs = []
    cf = ['sse2', 'haswell']
    for n in (2, 3, 4):
        hs += float_vec(f'float{n}', n, f'F{n}', False, cf, f'U{n}')
        body = f'float{n} a=F{n}(f), b=F{n}(f+{n});\n'; k = 0
        for fn in FN1: body += f'P(of+{k}, {fn}(a));\n'; k += n
        for fn in ('pow', 'mod', 'atan'): body += f'P(of+{k}, {fn}(a, b));\n'; k += n
        def spec(E, n=n):
            k = 0
            for fn in FN1:
                for j in range(n): E.beq(f'{fn}[{j}]', E.of[k+j], E.libmf(fn, E.f[j]))
                k += n
            for fn, l in (('pow', 'pow'), ('mod', 'fmod'), ('atan', 'atan2')):
                for j in range(n): E.beq(f'{fn}[{j}]', E.of[k+j], E.libmf(l, E.f[j], E.f[n+j]))
                k += n
        hs.append(H(f'float{n}_libm', body, spec, mode='bits', nf=2*n, nof=k, cfgs=['sse2']))
    # scalar helpers
    body = 'P(of,min(f[0],f[1],f[2])); P(of+1,max(f[0],f[1],f[2])); P(of+2,sign(f[0])); P(oi,min((int32)i[0],(int32)i[1],(int32)i[2])); P(oi+1,max((int32)i[0],(int32)i[1],(int32)i[2]));'
    def pre(E):
        for x in E.f: E.assume(E.NOT(E.isnan(x)))
    def spec(E):
        mn = lambda x, y: E.sel(E.fcmp('olt', x, y), x, y); mx = lambda x, y: E.sel(E.fcmp('olt', x, y), y, x)
        a, b, c = E.f
        E.bfeq('min3', E.of[0], mn(mn(a, b), c)); E.bfeq('max3', E.of[1], mx(mx(a, b), c)); E.beq('sign', E.of[2], E.sel(E.w(a).slt(0), E.F(-1.0), E.F(1.0)))
        a, b, c = E.i
        im = lambda x, y: E.w(E.sel(x.slt(y), x.v, y.v)); ix = lambda x, y: E.w(E.sel(x.slt(y), y.v, x.v))
        E.weq('imin3', E.oi[0], im(im(a, b), c)); E.weq('imax3', E.oi[1], ix(ix(a, b), c))
    hs.append(H('scalar_minmax', body, spec, mode='bits', nf=3, ni=3, nof=3, noi=2, pre=pre, cfgs=cf))
    def spec(E):
        a, b, t, dt = E.f; E.eq('lerp', E.of[0], a + t*(b-a)); E.eq('lerpDelta', E.of[1], a + (1 - E.libm('pow', t, dt))*(b-a))
    hs.append(H('scalar_lerp', 'P(of, lerp(f[0],f[1],f[2])); P(of+1, lerpDelta(f[0],f[1],f[2],f[3]));', spec, nf=4, nof=2, posv=(2,), box=3))
    def spec(E):
        v = E.f[0]; r = E.of[0]; d = v - E.libm('floor', v)
        E.le_('repeat >= 0', E.k(0), r); E.le_('repeat <= 1', r, E.k(1))
        E.true('repeat differs from v by an integer', E.OR(E.eqc(r, d), E.AND(E.lt(v, 0), E.eqc(d, 0), E.eqc(r, 1))), slacks=(r-d,) if not E.conc else (r-d, r-d-1))
    hs.append(H('scalar_repeat', 'P(of, repeat(f[0]));', spec, nf=1, nof=1, pre=lambda E: E.assume(E.AND(E.le(-1000, E.f[0]), E.le(E.f[0], 1000))), tol=1e-3))
    def spec(E):
        x, k = E.f
        E.eq('gain', E.of[0], E.ite(E.lt(x, E.k(0.5)), E.k(0.5)*E.libm('pow', 2*x, k), 1 - E.k(0.5)*E.libm('pow', 2*(1-x), k)))
    hs.append(H('scalar_gain', 'P(of, gain(f[0], f[1]));', spec, nf=2, nof=1, pre=lambda E: E.assume(E.AND(E.lt(0, E.f[0]), E.lt(E.f[0], 1), E.lt(0, E.f[1]))), box=1,
        gen=lambda rng: ([rng.uniform(.05, .95), rng.uniform(.2, 3)], [], [])))
    return hs
