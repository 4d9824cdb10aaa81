"""C10: affine transform builders."""
from vf import H
META = dict(
 title='translate, scale, rotate and calcModel build the stated transform',
 statement='translate(t), scale(s) and rotate(q) are the matrices that move a point by t, scale it per axis and rotate it by the unit quaternion q; the two-argument forms equal the matrix product with those builders in the stated order (translation forms: for affine matrices). '
   'calcModel(position, rotation, scale) = T*R*S for any nonzero rotation quaternion and any scale, including scale one and the default arguments; set/getTranslation write and read exactly the translation column, and inverseTransRot inverts every translation-rotation matrix.',
 quant='all real translations, scales, matrices, all unit (calcModel: nonzero) quaternions, SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='a sign or index slip in a rotation entry, or the shortcut taken when scale is one, only shows for particular quaternions or scales',
 files=['include/math/matrix/transform.hpp', 'include/math/simd/matrix/float.hpp', 'include/math/quaternion.hpp'],
 mech=[('translate, scale, rotate(quat), calcModel, setTranslation, inverseTransRot', 'include/math/matrix/transform.hpp')],
 note='Real arithmetic. SIMD 3D arguments use the public 3-component constructor (W duplicates Z).')
EXPLAIN = 'Matrices are compared element by element with textbook polynomials; unit quaternions through the rewriting w^2 = 1-x^2-y^2-z^2.'
ASSUME = ['real arithmetic']
BOUNDS = ['all values; no size bound']

def Tm(t): return [1,0,0,0, 0,1,0,0, 0,0,1,0, t[0],t[1],t[2],1]
def Sm(s): return [s[0],0,0,0, 0,s[1],0,0, 0,0,s[2],0, 0,0,0,1]
def Rm(q):
    x, y, z, w = q
    return [1-2*(y*y+z*z), 2*(x*y+w*z), 2*(x*z-w*y), 0,  2*(x*y-w*z), 1-2*(x*x+z*z), 2*(y*z+w*x), 0,  2*(x*z+w*y), 2*(y*z-w*x), 1-2*(x*x+y*y), 0, 0,0,0,1]
def mm(A, B, n=4):
    def s(g):
        g = list(g); r = g[0]
        for x in g[1:]: r = r + x
        return r
    return [s(A[k*n+r]*B[c*n+k] for k in range(n)) for c in range(n) for r in range(n)]
def eqm(E, nm, base, exp, rows=range(4)):
    for c in range(4):
        for r in rows: E.eq(f'{nm}[c{c}r{r}]', E.of[base+c*4+r], E._r(exp[c*4+r]))

def harnesses(tier):
    hs = []
    def spec(E):
        t, s = E.f[:3], E.f[3:6]
        eqm(E, 'translate(t)', 0, Tm(t)); eqm(E, 'scale(s)', 16, Sm(s))
        for j in range(3): E.eq(f'translate(t)*p[{j}]', E.of[32+j], E.f[6+j]+t[j]); E.eq(f'scale(s)*p[{j}]', E.of[36+j], E.f[6+j]*s[j])
    hs.append(H('builders', 'P(of, translate(S3(f))); P(of+16, scale(S3(f+3))); f32x4 p(f[6], f[7], f[8], 1.0f); P(of+32, translate(S3(f))*p); P(of+36, scale(S3(f+3))*p);', spec, nf=9, nof=40))
    # affine matrix input: 12 free entries
    def aff(f): return [f[0],f[1],f[2],0, f[3],f[4],f[5],0, f[6],f[7],f[8],0, f[9],f[10],f[11],1]
    AFF = 'f32x4x4 m(f32x4(f[0],f[1],f[2],0.0f), f32x4(f[3],f[4],f[5],0.0f), f32x4(f[6],f[7],f[8],0.0f), f32x4(f[9],f[10],f[11],1.0f));'
    def spec(E):
        M = aff(E.f[:12]); t = E.f[12:15]
        M = [E._r(x) for x in M]
        eqm(E, 'translate(m,t)', 0, mm(M, [E._r(x) for x in Tm(t)])); eqm(E, 'translate(t,m)', 16, mm([E._r(x) for x in Tm(t)], M))
    hs.append(H('translate_affine', AFF + ' P(of, translate(m, S3(f+12))); P(of+16, translate(S3(f+12), m));', spec, nf=15, nof=32))
    def spec(E):
        M = E.f[:16]; s = [E._r(x) for x in Sm(E.f[16:19])]
        eqm(E, 'scale(m,s)', 0, mm(M, s)); eqm(E, 'scale(s,m)', 16, mm(s, M))
        exp = M[:12] + E.f[16:19] + [M[15]]
        eqm(E, 'setTranslation', 32, exp)
        for j in range(3): E.eq(f'getTranslation[{j}]', E.of[48+j], M[12+j])
    hs.append(H('scale_any', 'f32x4x4 m=SM44(f); f32x4 s=S3(f+16); P(of, scale(m,s)); P(of+16, scale(s,m)); P3(of+48, getTranslation(m)); setTranslation(m, s); P(of+32, m);', spec, nf=19, nof=51))
    def spec(E):
        q, v = E.f[:4], E.f[4:7]; R = Rm(q)
        eqm(E, 'rotate(q)', 0, R)
        for r in range(3): E.eq(f'rotate(q)*v[{r}]', E.of[16+r], R[r]*v[0]+R[4+r]*v[1]+R[8+r]*v[2])
        # rotation: orthonormal, right handed
        c = [E.of[0:3], E.of[4:7], E.of[8:11]]
        for a in range(3):
            for b in range(a, 3): E.eq(f'orthonormal {a}{b}', c[a][0]*c[b][0]+c[a][1]*c[b][1]+c[a][2]*c[b][2], E.k(1 if a == b else 0))
        for j in range(3):
            E.eq(f'right-handed[{j}]', c[0][(j+1)%3]*c[1][(j+2)%3]-c[0][(j+2)%3]*c[1][(j+1)%3], c[2][j])
    hs.append(H('rotate_quat', 'quat q(S4(f)); P(of, rotate(q)); P(of+16, multiply3x3(rotate(q), S3(f+4)));', spec, nf=7, nof=20, unit=[(0, 1, 2, 3)]))
    def spec(E):
        t, q, s, k = E.f[:3], E.f[3:7], E.f[7:10], E.f[10]
        R = [E._r(x) for x in Rm(q)]
        eqm(E, 'calcModel(p,kq,s)', 0, mm(mm([E._r(x) for x in Tm(t)], R), [E._r(x) for x in Sm(s)]))
        eqm(E, 'calcModel(p,kq)', 16, mm([E._r(x) for x in Tm(t)], R))
        eqm(E, 'calcModel(p)', 32, Tm(t)); 
        eqm(E, 'calcModel()', 48, Tm([0, 0, 0]))
        eqm(E, 'calcModel(p,kq,one)', 64, mm([E._r(x) for x in Tm(t)], R))
    def pre(E): E.assume(E.lt(0, E.f[10]))
    hs.append(H('calcModel', 'f32x4 p=S3(f); quat q(S4(f+3)*f[10]); P(of, calcModel(p, q, S3(f+7))); P(of+16, calcModel(p, q)); P(of+32, calcModel(p)); P(of+48, calcModel()); P(of+64, calcModel(p, q, f32x4(1.0f, 1.0f, 1.0f)));',
        spec, nf=11, nof=80, pre=pre, unit=[(3, 4, 5, 6)], posv=(10,), opts={'sqrtneg': 'assume'}))
    # scale exactly one in some axes only
    for ax in range(3):
        sc = ['f[7]', 'f[8]', 'f[9]']; sc[ax] = '1.0f'
        def spec(E, ax=ax):
            t, q, s = E.f[:3], E.f[3:7], list(E.f[7:10]); s[ax] = E.k(1)
            eqm(E, f'calcModel scale one in axis {ax}', 0, mm(mm([E._r(x) for x in Tm(t)], [E._r(x) for x in Rm(q)]), [E._r(x) for x in Sm(s)]))
        hs.append(H(f'calcModel_one{ax}', f'P(of, calcModel(S3(f), quat(S4(f+3)), f32x4({", ".join(sc)})));', spec, nf=10, nof=16, unit=[(3, 4, 5, 6)], opts={'sqrtneg': 'assume'}))
    # inverseTransRot on T*R built here from a unit quaternion
    def derive(E):
        t, q = E.virt[:3], E.virt[3:7]; R = Rm(q)
        E.f = [E._r(x) for x in R[:12]] + list(t) + [E.k(1)]
    def spec(E):
        M = E.f; I = E.of[:16]
        for nm, A, B in (('inv*m', I, M), ('m*inv', M, I)):
            pr = mm(A, B)
            for c in range(4):
                for r in range(4): E.eq(f'{nm}[c{c}r{r}]', pr[c*4+r], E.k(1 if c == r else 0))
    hs.append(H('inverseTransRot', 'P(of, inverseTransRot(SM44(f)));', spec, nf=16, nvirt=7, nof=16, derive=derive, unit=[(19, 20, 21, 22)]))
    return hs
