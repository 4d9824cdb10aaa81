"""C32: objects of the scalar types at every address their alignment allows."""
from vf import H
META = dict(
 title='Scalar types and arrays work at every address their alignment allows',
 statement='Vectors, matrices and float/int arrays placed at any multiple of 4, and a Color placed at any byte address, can be passed by reference to every conversion, SIMD constructor, unaligned load/store, comparison and operation: '
   'no access needs more alignment than the type declares, no access leaves the object, and the result is the same as for an aligned copy.',
 quant='every value of every component and every placement (4 byte offsets within 16 for 4-byte types, 4 for Color)', over=['inputs', 'configurations'],
 why='test objects are locals which the compiler happens to align to 16; a misaligned access only fails for members behind other fields or in packed buffers, and only in optimised SSE builds',
 files=['include/math/matrix/float.hpp', 'include/math/simd/matrix/float.hpp', 'include/math/simd/vector/float.hpp', 'include/math/simd/vector/int.hpp', 'include/math/simd/vector/uint.hpp', 'include/math/color.hpp'],
 mech=[('f32x4x4(float4x4), operator float4x4', 'include/math/simd/matrix/float.hpp'), ('pointer constructors, store', 'the SIMD vector headers'), ('operator uint32, isBinaryLess', 'include/math/color.hpp')],
 note='The engine knows what alignment each object is guaranteed and checks every load, store and block copy of the IR against it; a misaligned access is confirmed by a run of the real code (crash, or the alignment sanitizer).')
EXPLAIN = 'Each operation is executed on an object inside a symbolic array at every offset and compared bit for bit with the same operation on a copy made component by component.'
ASSUME = ['the *Aligned loads and stores are excluded (documented to need alignment)']
BOUNDS = ['all values; offsets 0, 4, 8, 12 of the array (0..3 bytes for Color)']
C3 = ['sse2', 'sse41', 'haswell']
HEADX = '''
VI float4x3 M43(const float* p) { return float4x3(F3(p), F3(p+3), F3(p+6), F3(p+9)); }
VI void P(float* o, const float4x3& m) { P(o, m.c0); P(o+3, m.c1); P(o+6, m.c2); P(o+9, m.c3); }
'''
# type, words, loader, [(expression of x, words)]; results in floats or ints
FT = {
 'float2': (2, 'F2', [('(f32x4)x', 4, 'f'), ('x + x', 2, 'f'), ('x == x', 1, 'i'), ('isBinaryLess(x, y)', 1, 'i'), ('(float3)float3(x, 1.0f)', 3, 'f'), ('min(x, y)', 2, 'f')]),
 'float3': (3, 'F3', [('(f32x4)x', 4, 'f'), ('x + x', 3, 'f'), ('x == y', 1, 'i'), ('isBinaryLess(x, y)', 1, 'i'), ('(float2)x', 2, 'f'), ('min(x, y)', 3, 'f')]),
 'float4': (4, 'F4', [('(f32x4)x', 4, 'f'), ('x + x', 4, 'f'), ('x == y', 1, 'i'), ('isBinaryLess(x, y)', 1, 'i'), ('(float3)x', 3, 'f'), ('min(x, y)', 4, 'f')]),
 'float2x2': (4, 'M22', [('transpose(x)', 4, 'f'), ('x == y', 1, 'i'), ('x * 2.0f', 4, 'f'), ('x[1]', 2, 'f')]),
 'float3x3': (9, 'M33', [('f32x4x4(x)', 16, 'f'), ('transpose(x)', 9, 'f'), ('x == y', 1, 'i'), ('(float2x2)x', 4, 'f'), ('x * 2.0f', 9, 'f')]),
 'float4x3': (12, 'M43', [('f32x4x4(x)', 16, 'f'), ('x == y', 1, 'i'), ('(float3x3)x', 9, 'f'), ('x * 2.0f', 12, 'f')]),
 'float4x4': (16, 'M44', [('f32x4x4(x)', 16, 'f'), ('transpose(x)', 16, 'f'), ('x == y', 1, 'i'), ('(float3x3)x', 9, 'f'), ('(float4x3)x', 12, 'f'), ('x * 2.0f', 16, 'f')]),
}
IT = {
 'int2': (2, 'I2', [('(i32x4)x', 4, 'i'), ('x + x', 2, 'i'), ('x == x', 1, 'i'), ('isBinaryLess(x, y)', 1, 'i'), ('(uint2)x', 2, 'i'), ('(float2)x', 2, 'f')]),
 'int3': (3, 'I3', [('(i32x4)x', 4, 'i'), ('x + x', 3, 'i'), ('x == y', 1, 'i'), ('isBinaryLess(x, y)', 1, 'i'), ('(uint3)x', 3, 'i'), ('(float3)x', 3, 'f')]),
 'int4': (4, 'I4', [('(i32x4)x', 4, 'i'), ('x + x', 4, 'i'), ('x == y', 1, 'i'), ('isBinaryLess(x, y)', 1, 'i'), ('(uint4)x', 4, 'i'), ('(float4)x', 4, 'f')]),
 'uint2': (2, 'U2', [('(u32x4)x', 4, 'i'), ('x + x', 2, 'i'), ('x == x', 1, 'i'), ('isBinaryLess(x, y)', 1, 'i'), ('(int2)x', 2, 'i')]),
 'uint3': (3, 'U3', [('(u32x4)x', 4, 'i'), ('x + x', 3, 'i'), ('x == y', 1, 'i'), ('isBinaryLess(x, y)', 1, 'i'), ('(int3)x', 3, 'i')]),
 'uint4': (4, 'U4', [('(u32x4)x', 4, 'i'), ('x + x', 4, 'i'), ('x == y', 1, 'i'), ('isBinaryLess(x, y)', 1, 'i'), ('(int4)x', 4, 'i')]),
}
def harnesses(tier):
    hs = []
    def both(name, body, T, load, exprs, **k):
        """body declares x, y (in place) and X, Y (copies); each expression on both"""
        kf = ki = 0; pr = []
        for e, n, w in exprs:
            E2 = e.replace('x)', 'X)') if False else ''.join({'x': 'X', 'y': 'Y'}.get(c, c) if (j == 0 or not (e[j-1].isalnum() or e[j-1] in '._')) and (j + 1 == len(e) or not (e[j+1].isalnum() or e[j+1] == '_')) else c for j, c in enumerate(e))
            o = 'of' if w == 'f' else 'oi'; q = kf if w == 'f' else ki
            body += f'P({o}+{q}, {e}); P({o}+{q+n}, {E2});\n'; pr.append((e, w, q, n))
            if w == 'f': kf += 2*n
            else: ki += 2*n
        def spec(E):
            for e, w, q, n in pr:
                for j in range(n):
                    if w == 'f': E.beq(f'{e} [{j}]', E.of[q+j], E.of[q+n+j])
                    else: E.weq(f'{e} [{j}]', E.oi[q+j], E.oi[q+n+j])
        hs.append(H(name, body, spec, mode='bits', nof=kf, noi=ki, head=HEADX, **k))
    for tab, src in ((FT, 'f'), (IT, 'i')):
        for T, (n, ld, ex) in tab.items():
            for o in range(4):
                body = f'const {T}& x = *(const {T}*)({src} + {o}); const {T}& y = *(const {T}*)({src} + {o+n});\n{T} X = {ld}({src} + {o}), Y = {ld}({src} + {o+n});\n'
                k = dict(nf=2*n+o) if src == 'f' else dict(ni=2*n+o)
                both(f'{T}_at{o}', body, T, ld, ex, cfgs=C3 if T == 'float4x4' else None, **k)
    # pointer constructors, stores and conversions out of SIMD types, written in place
    for o in range(4):
        body = f'f32x4 a(f + {o}); i32x4 b((const int32*)i + {o}); u32x4 c((const uint32*)i + {o}); P(of, a); P(oi, b); P(oi+4, c);\n' \
               f'f32x4 d = S4(f); d.store(of + {4+o}); i32x4 e = SI4(i); e.store((int32*)oi + {8+o}); u32x4 g = SU4(i); g.store((uint32*)oi + {16+o});'
        def spec(E, o=o):
            for j in range(4):
                E.beq(f'f32x4(const float*) {j}', E.of[j], E.f[o+j]); E.weq(f'i32x4(const int32*) {j}', E.oi[j], E.i[o+j]); E.weq(f'u32x4(const uint32*) {j}', E.oi[4+j], E.i[o+j])
                E.beq(f'f32x4 store {j}', E.of[4+o+j], E.f[j]); E.weq(f'i32x4 store {j}', E.oi[8+o+j], E.i[j]); E.weq(f'u32x4 store {j}', E.oi[16+o+j], E.i[j])
        hs.append(H(f'pointers_at{o}', body, spec, mode='bits', nf=4+o, ni=4+o, nof=8+o, noi=20+o, cfgs=C3))
        for T, n, e in (('float4x4', 16, 'float4x4'), ('float4x3', 12, 'float4x3'), ('float3x3', 9, 'float3x3'), ('float2x2', 4, 'float2x2')):
            R = {16: 4, 12: 3, 9: 3, 4: 2}[n]
            def spec(E, o=o, R=R, n=n):
                for j in range(n): E.beq(f'element {j}', E.of[o+j], E.f[j // R * 4 + j % R])
            hs.append(H(f'to_{T}_at{o}', f'f32x4x4 m = SM44(f); {T}* p = new (of + {o}) {T}(({T})m); (void)p;', spec, mode='bits', nf=16, nof=o+n, cfgs=C3 if o else ['sse2', 'haswell'], head='#include <new>\n'))
    # Color at any byte
    cx = [('(uint32)x', 1, 'i'), ('(float4)x', 4, 'f'), ('(float3)x', 3, 'f'), ('(f32x4)x', 4, 'f'), ('x == y', 1, 'i'), ('x < y', 1, 'i'), ('isBinaryLess(x, y)', 1, 'i'), ('x.getNormG()', 1, 'f')]
    for o in range(4):
        body = f'const uint8* q = (const uint8*)i + {o}; const Color& x = *(const Color*)q; const Color& y = *(const Color*)(q + 4);\nColor X(q[0], q[1], q[2], q[3]), Y(q[4], q[5], q[6], q[7]);\n'
        both(f'color_at{o}', body, 'Color', None, cx, ni=3)
    return hs
