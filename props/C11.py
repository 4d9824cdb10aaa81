"""C11: transform decomposition."""
from vf import H
from C10 import Tm, Sm, Rm, mm, eqm
META = dict(
 title='Decomposing a model matrix returns the transform it was built from',
 statement='For M = T(p) R(q) S(s) with unit q and positive scale s, extractScale(M) = s, extractScale2(M) = s.xy, extractRotation(M) = R(q), extractQuat(R(q)) is q or -q and extractTransform returns p, q up to sign, and s; extractRotationOnly(T R) = R. '
   'So calcModel of the extracted parts is M again.',
 quant='all real positions, unit quaternions and positive scales; every branch of extractQuat; SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='each quaternion-extraction branch covers a region of rotations that a few sample rotations need not reach; scale one hides squared lengths',
 files=['include/math/matrix/transform.hpp', 'include/math/quaternion.hpp'],
 mech=[('extractScale, extractRotation, extractQuat, extractTransform', 'include/math/matrix/transform.hpp')],
 note='Real arithmetic. A quaternion and its negative are the same rotation.')
EXPLAIN = 'The matrix entries are polynomials in p, q, s; the decomposition runs symbolically through all branches and is compared with p, +-q, s.'
ASSUME = ['real arithmetic', 'scale > 0, |q| = 1']
BOUNDS = ['all values']
def same_quat(E, nm, o, q):
    n = ['x', 'y', 'z', 'w']
    for a in range(4):
        for b in range(a, 4): E.eq(f'{nm} {n[a]}{n[b]}', o[a]*o[b], q[a]*q[b])
def harnesses(tier):
    hs = []
    def derive(E):
        p, q, s = E.virt[:3], E.virt[3:7], E.virt[7:10]; R = [E._r(x) for x in Rm(q)]
        E.f = [R[c*4+r]*s[c] if r < 3 else E.k(0) for c in range(3) for r in range(4)] + list(p) + [E.k(1)]
    def spec(E):
        p, q, s = E.virt[:3], E.virt[3:7], E.virt[7:10]
        for j in range(3): E.eq(f'extractScale[{j}]', E.of[j], s[j]); E.eq(f'getTranslation[{j}]', E.of[24+j], p[j])
        for j in range(2): E.eq(f'extractScale2[{j}]', E.of[4+j], s[j])
        eqm(E, 'extractRotation', 8, [E._r(x) for x in Rm(q)])
    PV = tuple(16+k for k in (7, 8, 9)); UN = [(19, 20, 21, 22)]
    def gen(rng): return [0]*16, [], []
    hs.append(H('scale_rotation', 'f32x4x4 m=SM44(f); P3(of, extractScale(m)); P(of+4, extractScale2(m)); P(of+8, extractRotation(m)); P3(of+24, getTranslation(m));', spec, nf=16, nvirt=10, nof=27, derive=derive, posv=PV, unit=UN, tol=5e-3))
    def qderive(E): E.f = [E._r(x) for x in Rm(E.virt[:4])] 
    def qspec(E):
        if not all(E.isnum(x) for x in E.of): E.true('extractQuat finite', False); return
        same_quat(E, 'extractQuat', E.of, E.virt[:4])
    hs.append(H('extractQuat', 'P(of, extractQuat(SM44(f)));', qspec, nf=16, nvirt=4, nof=4, derive=qderive, unit=[(16, 17, 18, 19)]))
    def tderive(E):
        t, q = E.virt[:3], E.virt[3:7]; E.f = [E._r(x) for x in Rm(q)[:12]] + list(t) + [E.k(1)]
    def tspec(E):
        t, q = E.virt[:3], E.virt[3:7]
        if not all(E.isnum(x) for x in E.of[4:8]): E.true('extractTransform finite', False); return
        for j in range(3): E.eq(f'position[{j}]', E.of[j], t[j])
        same_quat(E, 'rotation', E.of[4:8], q)
        eqm(E, 'extractRotationOnly', 8, [E._r(x) for x in Rm(q)])
    hs.append(H('extractTransform_TR', 'f32x4x4 m=SM44(f); f32x4 p; quat q; extractTransform(m, p, q); P3(of, p); P(of+4, q); P(of+8, extractRotationOnly(m));', tspec, nf=16, nvirt=7, nof=24, derive=tderive, unit=UN))
    def spec(E):
        p, q, s = E.virt[:3], E.virt[3:7], E.virt[7:10]
        if not all(E.isnum(x) for x in E.of[4:8]): E.true('extractTransform finite', False); return
        for j in range(3): E.eq(f'position[{j}]', E.of[j], p[j]); E.eq(f'scale[{j}]', E.of[8+j], s[j])
        same_quat(E, 'rotation', E.of[4:8], q)
    hs.append(H('extractTransform_TRS', 'f32x4x4 m=SM44(f); f32x4 p, s; quat q; extractTransform(m, p, q, s); P3(of, p); P(of+4, q); P3(of+8, s);', spec, nf=16, nvirt=10, nof=11, derive=derive, posv=PV, unit=UN, tol=5e-3))
    def mspec(E):
        t, q, s = E.f[:3], E.f[3:7], E.f[7:10]
        if not all(E.isnum(x) for x in E.of): E.true('round trip finite', False); return
        eqm(E, 'calcModel(extractTransform(calcModel))', 0, mm(mm([E._r(x) for x in Tm(t)], [E._r(x) for x in Rm(q)]), [E._r(x) for x in Sm(s)]))
    hs.append(H('round_trip', 'f32x4x4 m=calcModel(S3(f), quat(S4(f+3)), S3(f+7)); f32x4 p, s; quat q; extractTransform(m, p, q, s); P(of, calcModel(p, q, s));', mspec, nf=10, nof=16, posv=(7, 8, 9), unit=[(3, 4, 5, 6)], tol=5e-3, opts={'sqrtneg': 'assume'}))
    return hs
