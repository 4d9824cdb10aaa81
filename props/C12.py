"""C12: view and look-at transforms."""
from vf import H
from C07 import dot, cross
from C11 import same_quat
META = dict(
 title='lookAt, look rotation and lookAtQuat build the stated orthonormal frame',
 statement='With forward f = (to-from)/|to-from|, side = up x f normalized and true up = f x side: rotate(from, to, up) and rotate(front, up) have columns side, true up, forward (a right-handed orthonormal basis), lookAt(from, to, up) maps from to the origin, to onto +Z at its distance, and up into the YZ plane with positive Y, and is rigid. '
   'lookAtQuat(direction, up) is the unit quaternion turning +Z to direction and +Y to the true up.',
 quant='all real eye, target and up vectors with up not parallel to the view direction (lookAtQuat: unit direction, |up x direction| >= 1/64), default up included, SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='a swapped cross product or missing normalization still looks right for axis-aligned samples',
 files=['include/math/matrix/transform.hpp'],
 mech=[('rotate(lookFrom, lookTo, up), rotate(front, up), lookAt, lookAtQuat', 'include/math/matrix/transform.hpp')],
 note='Real arithmetic; degenerate up vectors are outside. lookAtQuat is quantified over direction and up generated from an arbitrary unit quaternion, which covers every valid pair.')
EXPLAIN = 'The matrices run symbolically; the frame conditions are polynomial identities in eye, target, up and the two square roots.'
ASSUME = ['real arithmetic', 'up not parallel to direction, eye differs from target']
ALT = {'quick': (), 'thorough': ('scalar', 'neon')}
BOUNDS = ['all values satisfying the assumptions']
def frame(E, fv, up):
    lf = E.sqrt(dot(fv, fv)); sx = cross(up, fv); ls = E.sqrt(dot(sx, sx))
    return lf, sx, ls
def harnesses(tier):
    hs = []
    for nm, upe, nin in (('', 'S3(f+6)', 9), ('_defup', None, 6)):
        def up_(E, nin=nin): return E.f[6:9] if nin == 9 else [E.k(0), E.k(1), E.k(0)]
        def pre(E, up_=up_):
            fv = [E.f[3+j]-E.f[j] for j in range(3)]; s = cross(up_(E), fv)
            E.assume(E.lt(0, dot(fv, fv))); E.assume(E.lt(0, dot(s, s)))
        def spec(E, up_=up_):
            fr, to, up = E.f[:3], E.f[3:6], up_(E); fv = [a-b for a, b in zip(to, fr)]
            need = [E.of[c*4+r] for c in range(4) for r in range(4)] + E.of[16:36]
            if not all(E.isnum(x) for x in need): E.true('finite', False); return
            lf, sx, ls = frame(E, fv, up)
            tu = cross(fv, sx)      # true up * lf * ls  (fv = lf*f, sx = lf*(up x f); |sx| = ls)
            # rotate: columns
            R = E.of[:16]
            for j in range(3):
                E.eq(f'rotate side[{j}]', R[j]*ls, sx[j]); E.eq(f'rotate up[{j}]', R[4+j]*ls*lf, tu[j]); E.eq(f'rotate forward[{j}]', R[8+j]*lf, fv[j])
            for j in (3, 7, 11, 12, 13, 14): E.eq(f'rotate zero[{j}]', R[j], E.k(0))
            E.eq('rotate w', R[15], E.k(1))
            V = E.of[16:32]
            for j in range(3):
                E.eq(f'lookAt side[{j}]', V[j*4]*ls, sx[j]); E.eq(f'lookAt up[{j}]', V[j*4+1]*ls*lf, tu[j]); E.eq(f'lookAt forward[{j}]', V[j*4+2]*lf, fv[j]); E.eq(f'lookAt bottom[{j}]', V[j*4+3], E.k(0))
            E.eq('lookAt bottom[3]', V[15], E.k(1))
        u = f', {upe}' if upe else ''
        hs.append(H('lookAt'+nm, f'f32x4 a=S3(f), b=S3(f+3); P(of, rotate(a, b{u or ", f32x4::top"})); P(of+16, lookAt(a, b{u})); {{ f32x4x4 m=lookAt(a, b{u}); P(of+32, m*f32x4(f[0], f[1], f[2], 1.0f)); }}', lambda E, spec=spec: spec2(E, spec), nf=nin, nof=36, pre=pre, tol=1e-2))
    def spec2(E, spec):
        spec(E)
        for j in range(4): E.eq(f'lookAt*from[{j}]', E.of[32+j], E.k(1 if j == 3 else 0))
    # mapping of the target: polynomial consequences checked on the real matrix-vector product
    def pre(E):
        fv = [E.f[3+j]-E.f[j] for j in range(3)]; s = cross(E.f[6:9], fv)
        E.assume(E.lt(0, dot(fv, fv))); E.assume(E.lt(0, dot(s, s)))
    def spec(E):
        fv = [E.f[3+j]-E.f[j] for j in range(3)]; l = E.sqrt(dot(fv, fv))
        if not all(E.isnum(x) for x in E.of): E.true('finite', False); return
        E.eq('to x', E.of[0], E.k(0)); E.eq('to y', E.of[1], E.k(0)); E.eq('to z', E.of[2], l); E.eq('up x', E.of[4], E.k(0))
        s = cross(E.f[6:9], fv); ls = E.sqrt(dot(s, s)); E.eq('up y', E.of[5]*l, ls)      # > 0
    hs.append(H('lookAt_maps', 'f32x4x4 m=lookAt(S3(f), S3(f+3), S3(f+6)); P(of, m*f32x4(f[3], f[4], f[5], 1.0f)); P(of+4, m*f32x4(f[6], f[7], f[8], 0.0f));', spec, nf=9, nof=8, pre=pre, tol=1e-2))
    # rotate(front, up): front is a unit vector
    for nm, u in (('', ', S3(f+3)'), ('_defup', '')):
        def up_(E, u=u): return E.f[3:6] if u else [E.k(0), E.k(1), E.k(0)]
        def pre(E, up_=up_): s = cross(up_(E), E.f[:3]); E.assume(E.lt(0, dot(s, s)))
        def spec(E, up_=up_):
            f = E.f[:3]; s = cross(up_(E), f); ls = E.sqrt(dot(s, s)); tu = cross(f, s)
            if not all(E.isnum(x) for x in E.of[:16]): E.true('finite', False); return
            for j in range(3): E.eq(f'side[{j}]', E.of[j]*ls, s[j]); E.eq(f'up[{j}]', E.of[4+j]*ls, tu[j]); E.eq(f'front[{j}]', E.of[8+j], f[j])
            for j in (3, 7, 11, 12, 13, 14): E.eq(f'zero[{j}]', E.of[j], E.k(0))
            E.eq('w', E.of[15], E.k(1))
        # rotate(a, b) is ambiguous at the call site (both overloads have a default up); name the 2-parameter overload
        hs.append(H('rotate_front'+nm, 'P(of, static_cast<f32x4x4(*)(f32x4, f32x4)>(&rotate)(S3(f), S3(f+3)));' if u else 'P(of, rotate(S3(f)));', spec, nf=6, nof=16, pre=pre, unit=[(0, 1, 2)], tol=1e-2))
    def derive(E):
        q = E.virt[:4]; a, k = E.virt[4:6]; x, y, z, w = q
        Z = [2*(x*z+w*y), 2*(y*z-w*x), 1-2*(x*x+y*y)]; Y = [2*(x*y-w*z), 1-2*(x*x+z*z), 2*(y*z+w*x)]
        E.f = Z + [a*Z[j]+k*Y[j] for j in range(3)]
    def pre(E): E.assume(E.le(E.k(1)*E.k(0.015625), E.virt[5]))
    def spec(E):
        if not all(E.isnum(x) for x in E.of): E.true('finite', False); return
        same_quat(E, 'lookAtQuat', E.of, E.virt[:4])
    hs.append(H('lookAtQuat', 'P(of, lookAtQuat(S3(f), S3(f+3)));', spec, nf=6, nvirt=6, nof=4, derive=derive, pre=pre, unit=[(6, 7, 8, 9)], posv=(11,), tol=5e-3, opts={'ite': 'fork'}))
    return hs
