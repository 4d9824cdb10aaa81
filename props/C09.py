"""C09: matrix inverse."""
from vf import H
from floatvec import C3
META = dict(
 title='inverse() of every matrix type is the true inverse',
 statement='For every matrix with nonzero determinant, inverse(float2x2), inverse(float3x3), inverse(float4x4) and inverse4x4(f32x4x4) return the matrix whose product with the original, on either side, is the identity.',
 quant='every real invertible matrix, each code path', over=['inputs', 'configurations'],
 why='symmetric, diagonal or sampled matrices hide swapped or wrong cofactors; the identity must hold as a polynomial in all entries',
 files=['include/math/matrix/float.hpp', 'include/math/simd/matrix/float.hpp'],
 mech=[('inverse(float2x2/3x3/4x4)', 'include/math/matrix/float.hpp'), ('inverse4x4', 'include/math/simd/matrix/float.hpp')],
 note='Real arithmetic: conditioning and rounding of near-singular matrices are outside.')
EXPLAIN = 'The whole inverse is executed symbolically; M*inverse(M)=I is an identity between rational functions with det(M) != 0.'
ASSUME = ['real arithmetic', 'determinant nonzero']
BOUNDS = ['all invertible matrices of the four types']
def det(m, n):   # m[c][r]
    if n == 1: return m[0][0]
    s = None
    for c in range(n):
        sub = [[m[k][r] for r in range(1, n)] for k in range(n) if k != c]
        t = m[c][0]*det(sub, n-1)
        if c % 2: t = -t
        s = t if s is None else s + t
    return s
def harnesses(tier):
    hs = []
    for T, n, ld, fn in (('float2x2', 2, 'M22', 'inverse'), ('float3x3', 3, 'M33', 'inverse'), ('float4x4', 4, 'M44', 'inverse'), ('f32x4x4', 4, 'SM44', 'inverse4x4')):
        N = n*n
        def pre(E, n=n): E.assume(E.NOT(E.eqc(det([E.f[c*n:c*n+n] for c in range(n)], n), E.k(0))))
        def spec(E, n=n):
            M, I = E.f, E.of
            if not all(E.isnum(x) for x in I): E.true('inverse finite', False); return
            for c in range(n):
                for r in range(n):
                    a = M[r]*I[c*n]; b = I[r]*M[c*n]
                    for k in range(1, n): a = a + M[k*n+r]*I[c*n+k]; b = b + I[k*n+r]*M[c*n+k]
                    E.eq(f'M*inv[{c}][{r}]', a, E.k(1 if c == r else 0)); E.eq(f'inv*M[{c}][{r}]', b, E.k(1 if c == r else 0))
        hs.append(H(f'{T}_inverse', f'P(of, {fn}({ld}(f)));', spec, nf=N, nof=N, pre=pre, cfgs=C3 if T == 'f32x4x4' else None, tol=1e-2))
    return hs
