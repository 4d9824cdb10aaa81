"""C33: value semantics of the shape types and the named constants of every type."""
from vf import H
import struct
META = dict(
 title='Shape values compare, combine and name their constants as documented',
 statement='Two boxes, planes, spheres, lines, triangles or rays built from the same components compare equal and a difference in any single component makes them unequal, with != always the negation of ==. '
   'Triangle operators apply the vector operation to all three vertices (compound forms update and return the triangle), and copies are independent of their source. '
   'Named constants have the value of their name in every component: zero, one, minusOne, min/max and their negatives, epsilon, inf, nan, the axis directions (right +x, top +y, front +z, the others their negatives), '
   'the matrix and quaternion identities, the unit boxes and spheres (one has size 1, two size 2, half size 0.5) and the named colours; default construction gives zero in every component (quaternions: the identity).',
 long=True,
 quant='every bit pattern of the components compared (not NaN; +0 and -0 count as the same value only for the purpose of requiring inequality), every operand of the triangle operators; SSE2, AVX2, NEON-model and scalar builds', over=['inputs', 'configurations'],
 why='equality over a byte range that misses a field, or a constant with one wrong component, is right for every value that happens to agree there',
 files=['include/math/aabb.hpp', 'include/math/plane.hpp', 'include/math/sphere.hpp', 'include/math/line.hpp', 'include/math/ray.hpp', 'include/math/triangle.hpp', 'include/math/vector/float.hpp', 'include/math/vector/int.hpp',
  'include/math/vector/uint.hpp', 'include/math/simd/vector/float.hpp', 'include/math/simd/vector/int.hpp', 'include/math/simd/vector/uint.hpp', 'include/math/simd/matrix/float.hpp', 'include/math/color.hpp'],
 mech=[('operator== and operator!= of Aabb, Plane, Sphere, Line, Ray, Triangle', 'include/math/aabb.hpp ... triangle.hpp'), ('struct Triangle operators', 'include/math/triangle.hpp'), ('inline const T T::name', 'include/math/**')],
 note='Only the first three lanes of positions are compared in the claims (the fourth repeats the third in values built from three components).')
EXPLAIN = 'Comparisons run on two symbolic values and are decided on their bits; constants are read from the initialised globals of the module (their dynamic initialisers are executed by the encoding).'
ASSUME = ['no NaN components in compared values']
BOUNDS = ['none beyond the assumptions']
def f2b(x): return struct.unpack('<I', struct.pack('<f', x))[0]
INF, NINF = 0x7f800000, 0xff800000
FC = {'zero': 0, 'one': f2b(1), 'minusOne': f2b(-1), 'min': 0x00800000, 'minusMin': 0x80800000, 'max': 0x7f7fffff, 'minusMax': 0xff7fffff, 'epsilon': 0x34000000, 'inf': INF, 'minusInf': NINF, 'nan': None}
AX = {'left': (0, -1), 'right': (0, 1), 'bottom': (1, -1), 'top': (1, 1), 'back': (2, -1), 'front': (2, 1)}
def axis(nm, n): k, s = AX[nm]; return [s if j == k else 0 for j in range(n)]
def harnesses(tier):
    hs = []
    # --- equality
    ty = {'Aabb': (6, 'Aabb {v}; {v}.set(S3({p}), S3({p}+3));'), 'Plane': (4, 'Plane {v}(S3({p}), {p}[3], false);'), 'Sphere': (4, 'Sphere {v}({p}[3], S3({p}));'),
          'Line': (6, 'Line {v}(S3({p}), S3({p}+3));'), 'Triangle': (9, 'Triangle {v}(S3({p}), S3({p}+3), S3({p}+6));'), 'Ray': (6, 'Ray {v}(S3({p}), S3({p}+3), false);')}
    for T, (n, mk) in ty.items():
        def pre(E, n=n, T=T):
            for x in E.f: E.assume(E.NOT(E.isnan(x)))
            if T == 'Aabb':
                for o in (0, 6):
                    for j in range(3): E.assume(E.fcmp('ole', E.f[o+j], E.f[o+3+j]))
        def spec(E, n=n, T=T):
            same = E.AND(*[E.w(E.f[j]).eq(E.w(E.f[n+j])) for j in range(n)])
            diff = E.OR(*[E.NOT(E.fcmp('oeq', E.f[j], E.f[n+j])) for j in range(n)])
            eq = E.oi[0].ne(0)
            E.true('same components compare equal', E.IMP(same, eq)); E.true('a differing component is seen', E.IMP(diff, E.NOT(eq)))
            E.true('!= is the negation', E.IFF(E.oi[1].ne(0), E.NOT(eq)))
            E.true('a copy equals its source', E.AND(E.oi[2].ne(0), E.oi[3].eq(0)))
            E.true('the assigned value equals its source', E.oi[4].ne(0)); E.true('the source of a copy is unaffected', E.oi[5].ne(0))
        body = mk.format(v='a', p='f') + mk.format(v='b', p=f'(f+{n})') + mk.format(v='d', p='f')
        body += f' P(oi, a == b); P(oi+1, a != b); {T} c = a; P(oi+2, c == a); P(oi+3, c != a); c = b; P(oi+4, c == b); P(oi+5, a == d);'
        hs.append(H(f'equal_{T}', body, spec, mode='bits', nf=2*n, noi=6, pre=pre))
    # --- triangle operators
    for nm, op in (('mul', '*'), ('div', '/'), ('add', '+'), ('sub', '-')):
        def fn(E, a, b, nm=nm): return getattr(E, 'f' + nm)(a, b)
        def spec(E, fn=fn):
            for k in range(9):
                x = fn(E, E.f[k], E.f[9+k%3])
                E.beq(f'p{k//3}[{k%3}]', E.of[k], x); E.beq(f'compound p{k//3}[{k%3}]', E.of[9+k], x); E.beq(f'returned p{k//3}[{k%3}]', E.of[18+k], x); E.beq(f'operand p{k//3}[{k%3}]', E.of[27+k], E.f[k])
        body = f'Triangle a(S3(f), S3(f+3), S3(f+6)), c(a); f32x4 v = S3(f+9); Triangle r = a {op} v; Triangle& q = (c {op}= v); ' + ''.join(
            f'P3(of+{9*k}, {x}.p0); P3(of+{9*k+3}, {x}.p1); P3(of+{9*k+6}, {x}.p2); ' for k, x in enumerate(('r', 'c', 'q', 'a')))
        hs.append(H('triangle_' + nm, body, spec, mode='bits', nf=12, nof=36))
    # --- constants
    def const(name, items, tol=False):
        """items: (label, C++ expression, float?, expected words; None for any NaN)"""
        fo = io = 0; body = ''; plan = []
        for lab, ex, fl, want in items:
            if fl: body += f'P(of+{fo}, {ex});' if fl is True else fl.format(o=f'of+{fo}', x=ex); plan.append((lab, 1, fo, want)); fo += len(want)
            else: body += f'P(oi+{io}, {ex});'; plan.append((lab, 0, io, want)); io += len(want)
        def spec(E):
            for lab, fl, o, want in plan:
                for j, w in enumerate(want):
                    if fl and w is None: E.true(f'{lab}[{j}]', E.isnan(E.of[o+j]))
                    elif fl: (E.beq if w else E.bfeq)(f'{lab}[{j}]', E.of[o+j], w)
                    else: E.weq(f'{lab}[{j}]', E.oi[o+j], w & 0xffffffff)
        hs.append(H('const_' + name, body, spec, mode='bits', nf=1, nof=max(fo, 1), noi=max(io, 1)))
    for T, n in (('float2', 2), ('float3', 3), ('float4', 4), ('f32x4', 4)):
        it = [(f'{T}::{k}', f'{T}::{k}', True, [v]*n) for k, v in FC.items()]
        if T != 'float4': it += [(f'{T}::{k}', f'{T}::{k}', True, [f2b(float(x)) for x in axis(k, n)]) for k in AX if AX[k][0] < n]
        const(T, it)
    for T, n in (('int2', 2), ('int3', 3), ('int4', 4), ('i32x4', 4)):
        it = [(f'{T}::{k}', f'{T}::{k}', False, [v]*n) for k, v in (('zero', 0), ('one', 1), ('minusOne', -1))]
        if n < 4: it += [(f'{T}::{k}', f'{T}::{k}', False, axis(k, n)) for k in AX if AX[k][0] < n]
        if T == 'i32x4': it += [('i32x4::min', 'i32x4::min', False, [-2**31]*4), ('i32x4::max', 'i32x4::max', False, [2**31-1]*4)]
        const(T, it)
    for T, n in (('uint2', 2), ('uint3', 3), ('uint4', 4), ('u32x4', 4)):
        it = [(f'{T}::{k}', f'{T}::{k}', False, [v]*n) for k, v in (('zero', 0), ('one', 1))]
        if T == 'u32x4': it += [('u32x4::max', 'u32x4::max', False, [-1]*4)]
        const(T, it)
    eye = [f2b(1.0) if c == r else 0 for c in range(4) for r in range(4)]
    const('f32x4x4', [(f'f32x4x4::{k}', f'f32x4x4::{k}', True, [v]*16) for k, v in FC.items()] + [('f32x4x4::identity', 'f32x4x4::identity', True, eye)])
    for T, C, R in (('float2x2', 2, 2), ('float3x3', 3, 3), ('float4x4', 4, 4)):
        const(T, [(f'{T}::{k}', f'{T}::{k}', True, [f2b(v)]*(C*R)) for k, v in (('zero', 0.0), ('one', 1.0), ('minusOne', -1.0))] +
              [(f'{T}::identity', f'{T}::identity', True, [f2b(1.0) if c == r else 0 for c in range(C) for r in range(R)])])
    const('quat', [('quat::identity', 'quat::identity', True, [0, 0, 0, f2b(1.0)])])
    # shapes
    it = []
    for k in AX:
        d = [f2b(float(x)) for x in axis(k, 3)]
        it += [(f'Ray::{k} direction', f'Ray::{k}.getDirection()', 'P3({o}, {x});', d), (f'Ray::{k} origin', f'Ray::{k}.origin', 'P3({o}, {x});', [0]*3),
               (f'Plane::{k} normal', f'Plane::{k}.getNormal()', 'P3({o}, {x});', d), (f'Plane::{k} distance', f'Plane::{k}.getDistance()', True, [0])]
    for k, s in (('zero', 0.0), ('one', 1.0), ('two', 2.0), ('half', 0.5)):
        it += [(f'Aabb::{k} min', f'Aabb::{k}.getMin()', 'P3({o}, {x});', [f2b(-s/2) if s else 0]*3), (f'Aabb::{k} max', f'Aabb::{k}.getMax()', 'P3({o}, {x});', [f2b(s/2)]*3)]
        if s: it += [(f'Sphere::{k} radius', f'Sphere::{k}.getRadius()', True, [f2b(s/2)]), (f'Sphere::{k} position', f'Sphere::{k}.getPosition()', 'P3({o}, {x});', [0]*3)]
    for k, lo, hi in (('full', 0xff7fffff, 0x7f7fffff), ('inf', NINF, INF)):
        it += [(f'Aabb::{k} min', f'Aabb::{k}.getMin()', 'P3({o}, {x});', [lo]*3), (f'Aabb::{k} max', f'Aabb::{k}.getMax()', 'P3({o}, {x});', [hi]*3)]
    const('shapes', it)
    # default-constructed values: zero, the identity rotation; the scalar matrix and vector classes, colors and versions too
    it = [(f'{T}()', f'{T}()', True, [0]*n) for T, n in (('float2', 2), ('float3', 3), ('float4', 4), ('float2x2', 4), ('float3x3', 9), ('float4x3', 12), ('float4x4', 16))]
    it += [(f'{T}()', f'{T}()', False, [0]*n) for T, n in (('int2', 2), ('int3', 3), ('int4', 4), ('uint2', 2), ('uint3', 3), ('uint4', 4))]
    P3 = 'P3({o}, {x});'
    it += [('quat()', 'quat()', True, [0, 0, 0, f2b(1.0)])] + [(f'{T}().{g}', f'{T}().{g}', P3, [0]*3) for T, g in (('Aabb', 'getMin()'), ('Aabb', 'getMax()'), ('Sphere', 'getPosition()'), ('Plane', 'getNormal()'), ('Line', 'start'), ('Line', 'end'),
        ('Ray', 'origin'), ('Ray', 'getDirection()'), ('Triangle', 'p0'), ('Triangle', 'p1'), ('Triangle', 'p2'))]
    it += [('Sphere().getRadius()', 'Sphere().getRadius()', True, [0]), ('Plane().getDistance()', 'Plane().getDistance()', True, [0]), ('Color()', '(int32_t)(uint32)Color()', False, [0]), ('Version()', '(int32_t)(uint32)Version()', False, [0]),
           ('Sphere(radius)', 'Sphere(2.0f).getPosition()', P3, [0]*3), ('Plane(normal)', 'Plane(f32x4(0.0f, 1.0f, 0.0f)).getDistance()', True, [0]), ('Aabb(min)', 'Aabb(f32x4(-1.0f)).getMax()', P3, [0]*3)]
    const('defaults', it)
    cols = dict(white=(255, 255, 255, 255), black=(0, 0, 0, 255), grey=(127, 127, 127, 255), transparent=(0, 0, 0, 0), red=(255, 0, 0, 255), green=(0, 255, 0, 255), blue=(0, 0, 255, 255),
                cyan=(0, 255, 255, 255), magenta=(255, 0, 255, 255), yellow=(255, 255, 0, 255))
    const('colors', [(f'Color::{k}.{ch}', f'(int32_t)Color::{k}.{ch}', False, [v[j]]) for k, v in cols.items() for j, ch in enumerate('rgba')])
    return hs
