"""C19: ray against box."""
from vf import H
META = dict(
 title='Ray-AABB casts return the true entry and exit distances',
 statement='raycast2 returns the smallest and largest t with origin + t*direction inside the box (direction as stored in the ray, so units of its length), including rays parallel to one or two axes, and (FLT_MAX, -FLT_MAX) exactly when no point with t >= 0 is inside; raycast1 returns the first of them and raycast tells whether there was a hit. '
   'The I-variants, given a ray made of the reciprocal direction (zero for a zero component), return the same, and isAabbIntersected(d) is d.x <= d.y and d.y >= 0.',
 quant='all real boxes, origins and non-zero directions (each direction component 0 or 1e-4..1e4 in magnitude, crossing distances up to 1e8), all t; SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='rays parallel to an axis, starting inside or pointing away each take a different mask path; the quantified t covers every point of the ray',
 files=['include/math/aabb.hpp', 'include/math/ray.hpp'], mech=[('raycast2, raycast1, raycast, raycast2I, raycast1I, raycastI', 'include/math/aabb.hpp'), ('Ray::setDirection, getParallel', 'include/math/ray.hpp')],
 note='Real arithmetic, so grazing hits are decided exactly; rounding near grazing is outside the claim. A direction component that is not 0 but below 1e-20 counts as parallel in the code and is outside the bound.')
EXPLAIN = 'Box, ray and one arbitrary parameter t are symbolic: on each path t must be within the returned range iff its point is in the box, and the end points of the range must lie in the box.'
ASSUME = ['real arithmetic', 'direction not zero']
ALT = {'quick': ('scalar',), 'thorough': ('scalar', 'neon')}
BOUNDS = ['direction components 0 or 1e-4 <= |d| <= 1e4; crossing distances |t| <= 1e8']
MAXF = 340282346638528859811704183484516925440
def harnesses(tier):
    hs = []
    for zm in range(7):
        nz = [j for j in range(3) if not zm >> j & 1]
        for sg in range(1 << len(nz)):
            neg = {j: sg >> k & 1 for k, j in enumerate(nz)}
            for inv in (0, 1):
                def derive(E, zm=zm, neg=neg):
                    # box faces are given by the (arbitrary) distances where the ray crosses them: an exact change of variables for d != 0
                    f = list(E.f); lo, hi = E.virt[:3], E.virt[3:6]
                    for j in range(3):
                        if zm >> j & 1: continue
                        n, x = f[6+j] + lo[j]*f[9+j], f[6+j] + hi[j]*f[9+j]
                        f[j], f[3+j] = (x, n) if neg[j] else (n, x)
                    E.f = f
                def pre(E, zm=zm, neg=neg):
                    lo, hi = E.virt[:3], E.virt[3:6]
                    for j in range(3):
                        d = E.f[9+j]
                        if zm >> j & 1: E.assume(E.eqc(d, 0)); E.assume(E.le(E.f[j], E.f[3+j]))
                        else:
                            E.assume(E.AND(E.le(-10**8, lo[j]), E.le(lo[j], hi[j]), E.le(hi[j], 10**8)))
                            if neg[j]: E.assume(E.AND(E.le(-10000, d), E.le(d*10000, -1)))
                            else: E.assume(E.AND(E.le(1, d*10000), E.le(d, 10000)))
                def spec(E, zm=zm, neg=neg):
                    mn, mx, o, t, lo, hi = E.f[:3], E.f[3:6], E.f[6:9], E.f[12], E.virt[:3], E.virt[3:6]
                    if not all(E.isnum(x) for x in E.of[:3]): E.true('finite result', False); return
                    t0, t1 = E.of[0], E.of[1]; M = E.k(MAXF); cs = []; sl = [t, t - t0, t1 - t]
                    for j in range(3):
                        if zm >> j & 1: cs += [E.le(mn[j], o[j]), E.le(o[j], mx[j])]; sl += [o[j] - mn[j], mx[j] - o[j]]
                        else: cs += [E.le(lo[j], t), E.le(t, hi[j])]; sl += [t - lo[j], hi[j] - t]
                    it = E.AND(*cs)      # origin + t*direction lies in the box
                    hit = E.oi[0].ne(0); s2 = [x for a in lo for b in hi for x in (b - a,)] + [x for x in hi] + sl
                    E.true('every inside point lies in the returned range', E.IMP(E.AND(it, hit), E.AND(E.le(t0, t), E.le(t, t1))), slacks=sl)
                    E.true('range points are inside', E.IMP(E.AND(hit, E.le(t0, t), E.le(t, t1)), it), slacks=sl)
                    E.true('a hit reaches t >= 0', E.IMP(hit, E.AND(E.le(t0, t1), E.le(0, t1))), slacks=s2)
                    E.true('no hit: no inside point with t >= 0', E.IMP(E.AND(it, E.le(0, t)), hit), slacks=sl)
                    E.true('no hit: FLT_MAX, -FLT_MAX', E.IMP(E.NOT(hit), E.AND(E.eqc(t0, M), E.eqc(t1, -M))), slacks=s2)
                    E.true('raycast1 equals first distance', E.eqc(E.of[2], t0), slacks=[E.of[2] - t0])
                    E.iff('isAabbIntersected(raycast2)', E.oi[1], hit, slacks=s2)
                dirs = ', '.join('0.0f' if zm >> j & 1 else f'f[{9+j}]' for j in range(3))
                invs = ', '.join('0.0f' if zm >> j & 1 else f'1.0f / f[{9+j}]' for j in range(3))
                ray = f'Ray r(S3(f+6), f32x4({dirs}), false);' if not inv else f'Ray r(S3(f+6), f32x4({invs}), false);' if sg & 1 else f'Ray r; r.origin = S3(f+6); r.setDirection(f32x4({invs}), false);'
                I = 'I' if inv else ''
                body = f'Aabb b(S3(f), S3(f+3)); {ray} float2 d = raycast2{I}(b, r); of[0] = d.x; of[1] = d.y; of[2] = raycast1{I}(b, r); oi[0] = raycast{I}(b, r); oi[1] = isAabbIntersected(d);'
                hs.append(H(f'raycast{I}_z{zm}_s{sg}', body, spec, nf=13, nvirt=6, derive=derive, nof=3, noi=2, pre=pre, opts={'ite': 'sym', 'ieee_div0': True, 'itecheck': True}))
    def spec(E):
        E.iff('isAabbIntersected', E.oi[0], E.AND(E.le(E.f[0], E.f[1]), E.le(0, E.f[1])))
    hs.append(H('isAabbIntersected', 'oi[0] = isAabbIntersected(float2(f[0], f[1]));', spec, nf=2, noi=1))
    return hs
