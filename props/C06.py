"""C06: isBinaryLess is a strict total order on the binary representation."""
from vf import H
META = dict(
 title='isBinaryLess is a strict total order on binary representations',
 statement='For every type that offers isBinaryLess (int2/3/4, uint2/3/4, float2/3/4, u32x4, i32x4, f32x4, f32x4x4, Color, Aabb) the relation is irreflexive, asymmetric and transitive, '
   'and two values are unordered exactly when every stored component has the same bits. Containers keyed by it therefore never merge distinct keys or lose equal ones.',
 quant='every triple of values, including NaN and signed zero bit patterns (Aabb and f32x4x4: all stored components)',
 why='ordering bugs show only for particular sign bits or for values that differ in one late component',
 files=['include/math/vector/int.hpp', 'include/math/vector/uint.hpp', 'include/math/vector/float.hpp', 'include/math/simd/vector/float.hpp', 'include/math/simd/matrix/float.hpp', 'include/math/color.hpp', 'include/math/aabb.hpp'],
 mech=[('isBinaryLess overloads', 'vector, simd, matrix, color and aabb headers')],
 note='Bit-vector SMT over all values of three operands. Trusts clang IR and the executor (cross-checked against g++ builds).')
EXPLAIN = 'isBinaryLess is executed on three symbolic operands in all needed combinations; order axioms are discharged over all bit patterns.'
ASSUME = []
BOUNDS = ['all bit patterns']
HEAD = '#define NDEBUG\n'     # the order covers boxes the constructor's assertion would refuse
def harnesses(tier):
    hs = []
    T = [(f'{b}{n}', n, lambda o, b=b, n=n: f'{ {"int":"I","uint":"U","float":"F"}[b]}{n}({"(const float*)" if b=="float" else ""}(i+{o}))') for b in ('int', 'uint', 'float') for n in (2, 3, 4)]
    T += [('u32x4', 4, lambda o: f'SU4(i+{o})'), ('i32x4', 4, lambda o: f'SI4(i+{o})'), ('f32x4', 4, lambda o: f'S4((const float*)(i+{o}))'),
          ('f32x4x4', 16, lambda o: f'SM44((const float*)(i+{o}))'), ('Color', 1, lambda o: f'Color((uint32)i[{o}])'),
          ('Aabb', 8, lambda o: f'Aabb(S4((const float*)(i+{o})), S4((const float*)(i+{o+4})))')]
    for t, n, ld in T:
        body = f'{t} a={ld(0)}, b={ld(n)}, c={ld(2*n)}; P(oi,isBinaryLess(a,b)); P(oi+1,isBinaryLess(b,a)); P(oi+2,isBinaryLess(b,c)); P(oi+3,isBinaryLess(a,c)); P(oi+4,isBinaryLess(a,a));'
        def spec(E, n=n):
            ab, ba, bc, ac, aa = [E.nz(x) for x in E.oi]
            same = E.AND(*[E.i[k].eq(E.i[n+k]) for k in range(n)])
            E.true('irreflexive', E.NOT(aa)); E.true('asymmetric', E.NOT(E.AND(ab, ba)))
            E.true('unordered iff same bits', E.IFF(E.AND(E.NOT(ab), E.NOT(ba)), same))
            E.true('transitive', E.IMP(E.AND(ab, bc), ac))
        def gen(rng, n=n):
            x = [rng.getrandbits(32) for _ in range(n)]; y = list(x); z = list(x)
            y[rng.randrange(n)] ^= rng.getrandbits(32); z[rng.randrange(n)] ^= rng.getrandbits(32)
            return [], x+y+z
        hs.append(H(f'less_{t}', body, spec, mode='bits', ni=3*n, noi=5, cfgs=['sse2', 'haswell'] if n == 4 or n > 4 else ['sse2'], gen=gen))
    return hs
