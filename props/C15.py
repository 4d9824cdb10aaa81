"""C15: Euler extraction and slerp."""
import models
from vf import H
from C07 import dot, cross
META = dict(
 title='Euler extraction and slerp follow their trigonometric definitions',
 statement='For the unit quaternion built as yaw-pitch-roll (Z*Y*X) rotations with yaw strictly between -pi/2 and pi/2, extractPitch, extractYaw and extractRoll return the original angles (same sine and cosine), also when some of the angles are zero. '
   'slerp(a, b, t) of unit quaternions at an angle above the lerp cutoff gives unit quaternions, starts at a, ends at b (or -b, the shorter way) and turns by t times the angle; below the cutoff it interpolates linearly between the same ends.',
 quant='all real angles in the stated range; all pairs of unit quaternions and all t; SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='the singularity test and the shorter-arc flip are taken only for special angle combinations that single-axis tests skip',
 files=['include/math/quaternion.hpp'],
 mech=[('extractPitch/extractYaw/extractRoll/extractEulerAngles, slerp', 'include/math/quaternion.hpp')],
 note='Real arithmetic; atan2, asin, acos, sin are the exact functions, known through their defining relations.')
EXPLAIN = 'The half angles enter as symbolic sine/cosine pairs; atan2/asin results are characterised by their sine and cosine and compared with the original angles.'
ASSUME = ['real arithmetic', 'exact atan2, asin, acos, sin', 'yaw in (-pi/2, pi/2), |xx|,|yy| not both within FLT_EPSILON of zero']
BOUNDS = ['all values satisfying the assumptions']
def harnesses(tier):
    hs = []
    # virtual: half-angle (s, c) of pitch, yaw, roll
    def q_of(v):
        sX, cX, sY, cY, sZ, cZ = v
        return [sX*cY*cZ-cX*sY*sZ, cX*sY*cZ+sX*cY*sZ, cX*cY*sZ-sX*sY*cZ, cX*cY*cZ+sX*sY*sZ]
    def derive(E): E.f = [E._r(x) for x in q_of(E.virt)]
    UN = [(4, 5), (6, 7), (8, 9)]
    e7 = 1.5e-7
    def cosyaw(E): sY, cY = E.virt[2:4]; return cY*cY-sY*sY
    def pre0(E):
        E.assume(E.lt(E.k(2**-10), cosyaw(E)))
        for k in (1, 3, 5): E.assume(E.lt(0, E.virt[k]))     # half angles in (-pi/2, pi/2): angles in (-pi, pi)
    def angle(E, nm, o, s, c):
        if not E.isnum(o): E.true(nm+' finite', False); return
        E.eq(nm+' sine', E.libm('sin', o), 2*s*c); E.eq(nm+' cosine', E.libm('cos', o), c*c-s*s)
    def gq(rng):
        import math
        return None
    def ppre(E):
        pre0(E)
    def pspec(E): angle(E, 'pitch', E.of[0], E.virt[0], E.virt[1])
    def rspec(E): angle(E, 'roll', E.of[0], E.virt[4], E.virt[5])
    def yspec(E): angle(E, 'yaw', E.of[0], E.virt[2], E.virt[3])
    hs.append(H('pitch', 'P(of, quat(S4(f)).extractPitch());', pspec, nf=4, nvirt=6, nof=1, derive=derive, pre=ppre, unit=UN))
    hs.append(H('yaw', 'P(of, quat(S4(f)).extractYaw());', yspec, nf=4, nvirt=6, nof=1, derive=derive, pre=pre0, unit=UN))
    hs.append(H('roll', 'P(of, quat(S4(f)).extractRoll());', rspec, nf=4, nvirt=6, nof=1, derive=derive, pre=pre0, unit=UN))
    # all three through extractEulerAngles
    def espec(E):
        for k, nm in enumerate(('pitch', 'yaw', 'roll')): angle(E, 'euler '+nm, E.of[k], E.virt[2*k], E.virt[2*k+1])
    hs.append(H('eulerAngles', 'P3(of, quat(S4(f)).extractEulerAngles());', espec, nf=4, nvirt=6, nof=3, derive=derive, pre=pre0, unit=UN))
    # slerp: b = a rotated in the plane of a and a perpendicular unit p by theta:  b = sg*(cos*a + sin*p);  sin > 0, cos >= 0 (shorter arc)
    hk = {}
    for sg in (1, -1):
        # virtual a(4), p(4), cos, sin, t ; p is perpendicular to a:  p = a * u for a pure unit quaternion u(3)
        def sderive(E, sg=sg):
            a = E.virt[:4]; u = E.virt[4:7]; co, si = E.virt[7:9]; x, y, z, w = a; X, Y, Z = u
            p = [w*X+y*Z-z*Y, w*Y+z*X-x*Z, w*Z+x*Y-y*X, -(x*X)-y*Y-z*Z]
            b = [co*a[j]+si*p[j] for j in range(4)]
            E.f = list(a) + [x if sg > 0 else -x for x in b] + [E.virt[9]]
        def spre_(E):
            if E.conc: return
            co, si, t = E.virt[7:10]; th = E.libm('acos', co); st, ct = E.libm('sin', t*th), E.libm('cos', t*th)
            models.set_sincos(E.c, (1-t)*th, si*ct-co*st, co*ct+si*st)     # angle difference: (1-t)*theta = theta - t*theta
        def spre(E): spre_(E); E.assume(E.AND(E.lt(0, E.virt[7]), E.lt(0, E.virt[8]), E.lt(E.virt[7], E.k(1-2**-20)), E.NOT(E.eqc(E.virt[9], 0)), E.NOT(E.eqc(E.virt[9], 1))))
        def sspec(E, sg=sg):
            o = E.of
            if not all(E.isnum(x) for x in o[:12]): E.true('finite', False); return
            a = E.virt[:4]; u = E.virt[4:7]; co, si, t = E.virt[7:10]; x, y, z, w = a; X, Y, Z = u
            p = [w*X+y*Z-z*Y, w*Y+z*X-x*Z, w*Z+x*Y-y*X, -(x*X)-y*Y-z*Z]
            for j in range(4):
                E.eq(f'slerp t=0 is a[{j}]', o[4+j], a[j]); E.eq(f'slerp t=1 is b[{j}]', o[8+j], co*a[j]+si*p[j])
            th = E.libm('acos', co); st, ct = E.libm('sin', t*th), E.libm('cos', t*th)
            for j in range(4): E.eq(f'slerp turns by t*angle[{j}]', o[j], ct*a[j]+st*p[j])
        hs.append(H('slerp_' + ('same' if sg > 0 else 'flip'), 'quat a(S4(f)), b(S4(f+4)); P(of, slerp(a, b, f[8])); P(of+4, slerp(a, b, 0.0f)); P(of+8, slerp(a, b, 1.0f));', sspec, nf=9, nvirt=10, nof=12,
            derive=sderive, pre=spre, unit=[(9, 10, 11, 12), (13, 14, 15), (16, 17)], posv=(16, 17), tol=1e-2, opts={'sqrtneg': 'assume'}))
    # nearly equal quaternions: linear interpolation towards the nearer of b and -b
    def lpre(E):
        d = dot(E.f[:4], E.f[4:8]); E.assume(E.lt(E.k(1-2**-24), E.abs(d)))
    def lspec(E):
        a, b, t = E.f[:4], E.f[4:8], E.f[8]; d = dot(a, b)
        for j in range(4): E.eq(f'lerp[{j}]', E.of[j], E.ite(E.lt(d, 0), a[j]*(1-t)-b[j]*t, a[j]*(1-t)+b[j]*t))
    hs.append(H('slerp_near', 'P(of, slerp(quat(S4(f)), quat(S4(f+4)), f[8]));', lspec, nf=9, nof=4, pre=lpre))
    return hs
