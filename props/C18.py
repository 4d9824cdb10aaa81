"""C18: axis-aligned boxes: construction, measures and set operations."""
from vf import H
META = dict(
 title='AABB measures and set operations are exact',
 statement='Aabb setters, getters, translate, scale and operators keep min/max consistent with the documented size, extent and position, and calcArea/calcVolume are 2(xy+yz+zx) and xyz of the size. '
   'extend gives the smallest box containing both operands, shrink the intersection, isInside/isIntersected decide closed containment and overlap per axis, closestPoint is the per-axis clamp, and trySet accepts and stores exactly the pairs with min <= max on every axis, leaving the box unchanged otherwise. '
   'Aabb::full contains every finite point, Aabb::inf every point, and the other constants have the documented corners.',
 long=True,
 quant='all boxes and points without NaN (comparisons bit-precise, including infinities and signed zeros; measures over the reals), SSE2 and AVX2 paths', over=['inputs', 'configurations'],
 why='one swapped bound or an unchecked axis is wrong only for boxes separated on that axis alone',
 files=['include/math/aabb.hpp'], mech=[('struct Aabb, isInside, isIntersected, closestPoint', 'include/math/aabb.hpp')],
 note='Points are built as 3-component f32x4 values (the fourth lane repeats the third); a fourth lane chosen independently is outside the claim.')
EXPLAIN = 'Every operation is executed symbolically; predicates and min/max operations are decided bit-precisely, measures over the reals.'
ASSUME = ['no NaN coordinates', 'measures, setters and operators over exact reals']
BOUNDS = ['none beyond the assumptions']
def harnesses(tier):
    hs = []
    BX = 'Aabb b; b.set(S3(f), S3(f+3)); '
    OUT = 'P3(of, b.getMin()); P3(of+3, b.getMax());'
    def pre0(E): E.assume(E.AND(*[E.le(E.f[j], E.f[3+j]) for j in range(3)]))
    # --- measures (reals)
    def spec(E):
        mn, mx = E.f[:3], E.f[3:6]; sz = [b - a for a, b in zip(mn, mx)]
        for j in range(3):
            E.eq(f'getMin {j}', E.of[j], mn[j]); E.eq(f'getMax {j}', E.of[3+j], mx[j]); E.eq(f'getSize {j}', E.of[6+j], sz[j])
            E.eq(f'getPosition {j}', E.of[9+j]*2, mn[j] + mx[j]); E.eq(f'getExtent {j}', E.of[12+j]*2, sz[j])
            E.eq(f'getExtent2 {j}', E.of[15+j]*2, sz[j]); E.eq(f'getExtent2 position {j}', E.of[18+j]*2, mn[j] + mx[j])
        E.eq('calcArea', E.of[21], (sz[0]*sz[1] + sz[1]*sz[2] + sz[2]*sz[0])*2); E.eq('calcVolume', E.of[22], sz[0]*sz[1]*sz[2])
    hs.append(H('measures', BX + 'f32x4 e, p; b.getExtent(e, p); ' + OUT + 'P3(of+6, b.getSize()); P3(of+9, b.getPosition()); P3(of+12, b.getExtent()); '
        'P3(of+15, e); P3(of+18, p); of[21] = b.calcArea(); of[22] = b.calcVolume();', spec, nf=6, nof=23, pre=pre0))
    Aabb2 = 'Aabb b(S3(f), S3(f+3)); f32x4 v = S3(f+6); '
    mk = lambda k: (lambda E: [E.f[k+j] for j in range(3)])
    zero = lambda E: [E.k(0)]*3
    for name, code, half, pos in (('setSize', 'b.setSize(S3(f));', True, None), ('setSizePos', 'b.setSize(S3(f), S3(f+3));', True, 1),
                                  ('setExtent', 'b.setExtent(S3(f));', False, None), ('setExtentPos', 'b.setExtent(S3(f), S3(f+3));', False, 1)):
        def pre(E): E.assume(E.AND(*[E.le(0, E.f[j]) for j in range(3)]))
        def spec(E, half=half, pos=pos):
            for j in range(3):
                e = E.f[j]/E.k(2) if half else E.f[j]; p = E.f[3+j] if pos else E.k(0)
                E.eq(f'min {j}', E.of[j], p - e); E.eq(f'max {j}', E.of[3+j], p + e)
        hs.append(H(name, 'Aabb b; ' + code + OUT, spec, nf=6, nof=6, pre=pre))
    ops = {'translate': ('b.translate(v);', lambda a, v: a + v), 'scale': ('b.scale(v);', lambda a, v: a * v),
           'add': ('b = b + v;', lambda a, v: a + v), 'sub': ('b = b - v;', lambda a, v: a - v), 'mul': ('b = b * v;', lambda a, v: a * v), 'div': ('b = b / v;', lambda a, v: a / v),
           'addeq': ('b += v;', lambda a, v: a + v), 'subeq': ('b -= v;', lambda a, v: a - v), 'muleq': ('b *= v;', lambda a, v: a * v), 'diveq': ('b /= v;', lambda a, v: a / v)}
    for name, (code, fn) in ops.items():
        def pre(E, name=name):
            pre0(E)
            if 'div' in name or 'mul' in name or name == 'scale': E.assume(E.AND(*[E.lt(0, E.f[6+j]) for j in range(3)]))
        def spec(E, fn=fn):
            for j in range(6): E.eq(f'{"min" if j < 3 else "max"} {j%3}', E.of[j], fn(E.f[j], E.f[6+j%3]))
        hs.append(H('op_' + name, Aabb2 + code + OUT, spec, nf=9, nof=6, pre=pre))
    # --- predicates and lattice operations (bit precise)
    def nonan(n):
        def pre(E):
            for x in E.f[:n]: E.assume(E.NOT(E.isnan(x)))
        return pre
    def boxpre(n, *boxes):
        def pre(E):
            nonan(n)(E)
            for k in boxes: E.assume(E.AND(*[E.fcmp('ole', E.f[k+j], E.f[k+3+j]) for j in range(3)]))
        return pre
    le = lambda E, a, b: E.fcmp('ole', a, b)
    mn = lambda E, x, y: E.sel(E.fcmp('olt', y, x), y, x)
    mx = lambda E, x, y: E.sel(E.fcmp('olt', x, y), y, x)
    AB = 'Aabb a(S3(f), S3(f+3)), o(S3(f+6), S3(f+9)); '
    def spec(E):
        b, p = E.f[:6], E.f[6:9]
        E.iff('point inside', E.oi[0], E.AND(*[E.AND(le(E, b[j], p[j]), le(E, p[j], b[3+j])) for j in range(3)]))
    hs.append(H('isInside_point', 'Aabb b(S3(f), S3(f+3)); oi[0] = isInside(b, S3(f+6));', spec, mode='bits', nf=9, noi=1, pre=boxpre(9, 0)))
    def spec(E):
        a, o = E.f[:6], E.f[6:12]
        E.iff('box inside', E.oi[0], E.AND(*[E.AND(le(E, a[j], o[j]), le(E, o[3+j], a[3+j])) for j in range(3)]))
        E.iff('boxes overlap', E.oi[1], E.AND(*[E.AND(le(E, a[j], o[3+j]), le(E, o[j], a[3+j])) for j in range(3)]))
    hs.append(H('isInside_box', AB + 'oi[0] = isInside(a, o); oi[1] = isIntersected(a, o);', spec, mode='bits', nf=12, noi=2, pre=boxpre(12, 0, 6)))
    def spec(E):
        b, p = E.f[:6], E.f[6:9]
        for j in range(3): E.bfeq(f'closest {j}', E.of[j], mn(E, mx(E, p[j], b[j]), b[3+j]))
    hs.append(H('closestPoint', 'Aabb b(S3(f), S3(f+3)); P3(of, closestPoint(b, S3(f+6)));', spec, mode='bits', nf=9, nof=3, pre=boxpre(9, 0)))
    for name, code, f1, f2, isbox in (('extend_point', 'a.extend(S3(f+6));', mn, mx, 0), ('extend_box', 'a.extend(o);', mn, mx, 1),
                                      ('shrink_point', 'a.shrink(S3(f+6));', mx, mn, 0), ('shrink_box', 'a.shrink(o);', mx, mn, 1)):
        def spec(E, f1=f1, f2=f2, isbox=isbox):
            a, o = E.f[:6], E.f[6:12]
            for j in range(3):
                E.bfeq(f'min {j}', E.of[j], f1(E, a[j], o[j])); E.bfeq(f'max {j}', E.of[3+j], f2(E, a[3+j], o[3+j] if isbox else o[j]))
        hs.append(H(name, (AB if isbox else 'Aabb a(S3(f), S3(f+3)); ') + code + 'P3(of, a.getMin()); P3(of+3, a.getMax());', spec, mode='bits', nf=12, nof=6, pre=boxpre(12, 0, 6)))
    def spec(E):
        for k in range(2):
            for j in range(6): E.bfeq(f'{"extend shrink".split()[k]} by itself {j}', E.of[6*k+j], E.f[j])
    hs.append(H('self', 'Aabb a(S3(f), S3(f+3)); a.extend(a); P3(of, a.getMin()); P3(of+3, a.getMax()); a.shrink(a); P3(of+6, a.getMin()); P3(of+9, a.getMax());', spec, mode='bits', nf=6, nof=12, pre=boxpre(6, 0)))
    def spec(E):
        n, o = E.f[:6], E.f[6:12]; ok = E.AND(*[le(E, n[j], n[3+j]) for j in range(3)])
        E.iff('accepted iff min <= max', E.oi[0], ok)
        for j in range(6): E.bfeq(f'corner {j}', E.of[j], E.sel(ok, n[j], o[j]))
    hs.append(H('trySet', 'Aabb a(S3(f+6), S3(f+9)); oi[0] = a.trySet(S3(f), S3(f+3)); P3(of, a.getMin()); P3(of+3, a.getMax());', spec, mode='bits', nf=12, noi=1, nof=6, pre=boxpre(12, 6)))
    def spec(E):
        o = E.f[:6]
        for j in range(6): E.bfeq(f'setMin/setMax {j}', E.of[j], o[j])
    hs.append(H('setMinMax', 'Aabb a(f32x4::minusInf, f32x4::inf); a.setMin(S3(f)); a.setMax(S3(f+3)); P3(of, a.getMin()); P3(of+3, a.getMax());', spec, mode='bits', nf=6, nof=6, pre=boxpre(6, 0)))
    # --- constants
    def spec(E):
        for k, v in enumerate((0.0, 0.5, 1.0, 0.25)):
            for j in range(3):
                E.bfeq(f'constant {k} min {j}', E.of[6*k+j], E.F(-v)); E.bfeq(f'constant {k} max {j}', E.of[6*k+3+j], E.F(v))
        fin = E.AND(*[E.AND(E.fcmp('olt', E.f[j], E.F(float('inf'))), E.fcmp('olt', E.F(float('-inf')), E.f[j])) for j in range(3)])
        E.true('full contains every finite point', E.IMP(fin, E.oi[0].ne(0))); E.true('inf contains every point', E.oi[1].ne(0))
    hs.append(H('constants', 'const Aabb* c[4] = {&Aabb::zero, &Aabb::one, &Aabb::two, &Aabb::half}; for (int k = 0; k < 4; k++) { P3(of+6*k, c[k]->getMin()); P3(of+6*k+3, c[k]->getMax()); } '
        'oi[0] = isInside(Aabb::full, S3(f)); oi[1] = isInside(Aabb::inf, S3(f));', spec, mode='bits', nf=3, nof=24, noi=2, pre=nonan(3)))
    return hs
