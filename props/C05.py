"""C05: f32x4 lanes behave as IEEE scalars."""
from vf import H
from floatvec import float_vec, C3
META = dict(
 title='f32x4 SIMD operations are lane-wise IEEE in every instruction-set path',
 statement='Every f32x4 operator and element-wise function gives, in each of the four lanes and in every code path (SSE2, SSE4.1, AVX2/FMA, NEON, fallback), the IEEE result of the same scalar operation on that lane: '
   'arithmetic, comparison masks, equality of all lanes, min/max/clamp/select (by top mask bit), abs, sqrt, sign, signBits, floor/ceil/trunc/round (ties may go either way), fma (fused or not), pow, lerp, lerpDelta, repeat (integer shift into 0..1) and mod (n - floor(n/d) d). '
   'The bit casts between float and integer vectors keep every bit, and the horizontal min/max reduce exactly the documented 3 or 4 lanes.',
 long=True,
 quant='every value of every lane including infinities, signed zeros and NaN (min/max/clamp: no NaN; repeat and mod over the reals), each code path',
 over=['inputs', 'configurations'],
 why='tests run one instruction set with a few values; a wrong shuffle, blend or rounding immediate in another code path or lane is invisible to them',
 files=['include/math/simd/vector/float.hpp', 'include/math/simd/types.hpp'],
 mech=[('f32x4 operators and functions, three preprocessor paths', 'include/math/simd/vector/float.hpp')],
 note='Bit-precise IEEE-754 SMT on the IR of five configurations (three x86 ones, NEON with modelled intrinsics, fallback). Trusts clang IR, the intrinsic models and the executor (cross-checked against g++ builds).')
EXPLAIN = 'Each operation is executed symbolically per configuration and every lane compared with the scalar IEEE operation.'
ASSUME = ['pow is an uninterpreted function', 'repeat/mod/lerp/gain over exact reals']
BOUNDS = ['all 2^32 values per lane; |v| <= 1000 for repeat, |n/d| <= 1000 for mod']
def harnesses(tier):
    hs = float_vec('f32x4', 4, 'S4', True, C3, 'SU4')
    body = 'f32x4 a=S4(f); P(of, min4(a)); P(of+1, max4(a)); P(of+2, min3(a)); P(of+3, max3(a));'
    def pre(E):
        for x in E.f: E.assume(E.NOT(E.isnan(x)))
    def spec(E):
        mn = lambda x, y: E.sel(E.fcmp('olt', x, y), x, y); mx = lambda x, y: E.sel(E.fcmp('olt', x, y), y, x)
        a, b, c, d = E.f
        E.bfeq('min4', E.of[0], mn(mn(a, b), mn(c, d))); E.bfeq('max4', E.of[1], mx(mx(a, b), mx(c, d)))
        E.bfeq('min3', E.of[2], mn(mn(a, b), c)); E.bfeq('max3', E.of[3], mx(mx(a, b), c))
    hs.append(H('f32x4_hminmax', body, spec, mode='bits', nf=4, nof=4, pre=pre, cfgs=C3))
    body = 'P(of, uintAsFloat(SU4(i))); P(of+4, intAsFloat(SI4(i))); P(oi, floatAsUint(S4(f))); P(oi+4, floatAsInt(S4(f))); P(of+8, pow(S4(f), S4(f+4)));'
    def spec(E):
        for j in range(4):
            E.weq(f'uintAsFloat[{j}]', E.w(E.of[j]), E.i[j]); E.weq(f'intAsFloat[{j}]', E.w(E.of[4+j]), E.i[j])
            E.weq(f'floatAsUint[{j}]', E.oi[j], E.w(E.f[j])); E.weq(f'floatAsInt[{j}]', E.oi[4+j], E.w(E.f[j]))
            E.beq(f'pow[{j}]', E.of[8+j], E.libmf('pow', E.f[j], E.f[4+j]))
    hs.append(H('f32x4_casts', body, spec, mode='bits', nf=8, ni=4, nof=12, noi=8, cfgs=C3))
    for j in range(4):
        def pre(E): E.assume(E.AND(E.lt(0, E.f[1]), E.le(-1000*E.f[1], E.f[0]), E.le(E.f[0], 1000*E.f[1])))
        def spec(E, j=j):
            n, d = E.f
            E.eq('mod', E.of[j], n - E.libm('floor', n/d)*d)
            for q in range(4):
                if q != j: E.eq(f'other lane {q}', E.of[q], E.k(0.25))
        hs.append(H(f'f32x4_mod_{j}', f'f32x4 n(0.25f), d(1.0f); n[{j}]=f[0]; d[{j}]=f[1]; P(of, mod(n, d));', spec, nf=2, nof=4, pre=pre, posv=(1,), box=9, cfgs=C3))
    return hs
