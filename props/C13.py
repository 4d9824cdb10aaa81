"""C13: projection matrices."""
from vf import H
META = dict(
 title='Projection matrices map the view volume to Vulkan clip space',
 statement='For every field of view in (0, pi), aspect > 0 and 0 < near < far, the perspective matrices give clip w = view z, ndc x = x/(z*aspect*tan(fov/2)), ndc y = -y/(z*tan(fov/2)), and depth 0 at near and 1 at far (reversed: 1 at near, 0 at far; infinite reversed: near/z). '
   'The orthographic matrices map the left/right, bottom/top and near/far limits affinely to -1/1, 1/-1 (Y down) and 0/1 (reversed: 1/0), with w = 1; inside the volume every coordinate stays in range and depth is monotonic.',
 quant='all real view-space points and all valid parameters', over=['inputs'],
 why='tests do not cover projections; a depth convention or Y sign slip is invisible to compile and type checks',
 files=['include/math/matrix/projection.hpp'], mech=[('calcPerspProj, calcPerspProjRevZ, calcPerspProjInfRevZ, calcOrthoProj, calcOrthoProjRevZ', 'include/math/matrix/projection.hpp')],
 note='Real arithmetic; tan(fov/2) is an arbitrary positive number tied to its sine and cosine.')
EXPLAIN = 'A symbolic point goes through the real matrix; claims are rational identities and inequalities in point and parameters.'
ASSUME = ['real arithmetic', 'tan(fov/2) > 0', '0 < near < far, aspect > 0, limits distinct and ordered']
BOUNDS = ['all values']
def harnesses(tier):
    hs = []
    for fn, extra, rev in (('calcPerspProj', ', f[6]', 0), ('calcPerspProjRevZ', ', f[6]', 1), ('calcPerspProjInfRevZ', '', 2)):
        def pre(E):
            s = E.libm('sin', E.f[3]*E.k(0.5)); c = E.libm('cos', E.f[3]*E.k(0.5))
            E.assume(E.AND(E.lt(0, E.f[3]), E.lt(E.f[3], E.k(3)), E.lt(0, s), E.lt(0, c), E.lt(E.f[5], E.f[6]), E.lt(0, E.f[2])))
        def spec(E, rev=rev):
            x, y, z, fov, asp, n, fr = E.f; t = E.libm('tan', fov*E.k(0.5)); o = E.of
            if not all(E.isnum(v) for v in o): E.true('finite', False); return
            E.eq('clip w = z', o[3], z); E.eq('ndc x', o[0]*asp*t, x); E.eq('ndc y', o[1]*t, -y)
            if rev == 0: E.eq('near', o[4], E.k(0)); E.eq('far', o[5], o[6]); E.eq('far w', o[6], fr)
            elif rev == 1: E.eq('near', o[4], o[7]); E.eq('near w', o[7], n); E.eq('far', o[5], E.k(0))
            else: E.eq('depth', o[2], n)
            if rev < 2:
                d = o[2]/z
                E.true('0 <= depth <= 1 inside', E.IMP(E.AND(E.le(n, z), E.le(z, fr)), E.AND(E.le(0, d), E.le(d, 1))), slacks=(z-n, fr-z))
                E.true('depth in range only inside', E.IMP(E.AND(E.le(0, d), E.le(d, 1)), E.AND(E.le(n, z), E.le(z, fr))), slacks=(d, d-1))
                z2 = E.f[0]     # any second depth
                e = lambda zz: (o[8]*zz + o[9])/zz
                E.eq('depth formula linear', o[2], o[8]*z+o[9])
                E.true('monotonic', E.IMP(E.AND(E.lt(z, z2)), E.lt(e(z2), e(z)) if rev else E.lt(e(z), e(z2))), slacks=(z2-z,))
        hs.append(H(fn, f'float4x4 m={fn}(f[3], f[4], f[5]{extra}); P(of, m*float4(f[0], f[1], f[2], 1.0f)); float4 a=m*float4(0.0f, 0.0f, f[5], 1.0f), b=m*float4(0.0f, 0.0f, f[6], 1.0f); of[4]=a.z; of[7]=a.w; of[5]=b.z; of[6]=b.w; of[8]=m.c2.z; of[9]=m.c3.z;',
            spec, nf=7, nof=10, pre=pre, posv=(4, 5, 6), tol=1e-2, box=6, gen=lambda rng: ([rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(.5, 9), rng.uniform(.3, 2.5), rng.uniform(.5, 2), rng.uniform(.2, 2), rng.uniform(3, 9)], [], [])))
    for fn, rev in (('calcOrthoProj', 0), ('calcOrthoProjRevZ', 1)):
        def pre(E): E.assume(E.AND(E.lt(E.f[3], E.f[4]), E.lt(E.f[5], E.f[6]), E.lt(E.f[7], E.f[8])))
        def spec(E, rev=rev):
            x, y, z, l, r, b, t, n, fr = E.f; o = E.of
            if not all(E.isnum(v) for v in o): E.true('finite', False); return
            E.eq('w', o[3], E.k(1)); E.eq('x', (o[0]+1)*(r-l), 2*(x-l)); E.eq('y', (1-o[1])*(t-b), 2*(y-b))
            E.eq('depth', o[2]*(fr-n), (fr-z) if rev else (z-n))
        hs.append(H(fn, f'P(of, {fn}(F2(f+3), F2(f+5), F2(f+7))*float4(f[0], f[1], f[2], 1.0f));', spec, nf=9, nof=4, pre=pre, tol=1e-2))
    return hs
