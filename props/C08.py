"""C08: matrix algebra (scalar and SIMD)."""
from vf import H
from floatvec import C3
META = dict(
 title='Matrix arithmetic, products, transposes and conversions follow linear algebra',
 statement='For float2x2, float3x3, float4x3, float4x4 and f32x4x4: columns and (row-major) constructors store each element where documented, conversions keep the common block and fill the rest from the given row/column, '
   'operators with a scalar act on every element (both orders, compound forms update and return the matrix), M*N and M*v are the matrix products, v*M is the row-vector product, transpose swaps rows and columns, == and != compare all elements, and identity/zero/one/minusOne have those elements. '
   'multiply3x3 and transpose3x3 use only the upper 3x3 block; SIMD and scalar results agree in every code path.',
 long=True,
 quant='all real matrices, vectors and scalars (== and conversions: all bit patterns with finite values, excluding zeros of different sign), each code path',
 over=['inputs', 'configurations'],
 why='tests multiply a couple of fixed matrices; a wrong element index or shuffle only shows for matrices where the confused entries differ',
 files=['include/math/matrix/float.hpp', 'include/math/simd/matrix/float.hpp'],
 mech=[('float2x2/3x3/4x3/4x4 operators', 'include/math/matrix/float.hpp'), ('f32x4x4 operator*, multiply3x3, transpose4x4, transpose3x3', 'include/math/simd/matrix/float.hpp')],
 note='Exact real-arithmetic semantics of the compiled IR; rounding order is free. assert() is enabled: a failing assertion on valid input is a violation.')
EXPLAIN = 'Products, transposes, conversions executed symbolically; every element compared with the textbook polynomial. Equality decided bit-precisely.'
ASSUME = ['real arithmetic for products (no rounding, overflow)', 'scalar matrix == is memcmp: NaN and signed zeros excluded']
BOUNDS = ['all values of all elements']

HEADX = '''
VI float4x3 M43(const float* p) { return float4x3(F3(p), F3(p+3), F3(p+6), F3(p+9)); }
VI void P(float* o, const float4x3& m) { P(o, m.c0); P(o+3, m.c1); P(o+6, m.c2); P(o+9, m.c3); }
'''
# type, columns, rows, loader, vector type, vector loader
TY = [('float2x2', 2, 2, 'M22', 'float2', 'F2'), ('float3x3', 3, 3, 'M33', 'float3', 'F3'), ('float4x3', 4, 3, 'M43', None, None), ('float4x4', 4, 4, 'M44', 'float4', 'F4'), ('f32x4x4', 4, 4, 'SM44', 'f32x4', 'S4')]

def mm(A, B, n):   # column-major n x n lists
    return [sum_(A[k*n+r]*B[c*n+k] for k in range(n)) for c in range(n) for r in range(n)]
def sum_(g):
    g = list(g); r = g[0]
    for x in g[1:]: r = r + x
    return r

def harnesses(tier):
    hs = []
    def add(*a, **k): hs.append(H(*a, head=HEADX, **k))
    for T, C, Rr, ld, V, vl in TY:
        simd = T == 'f32x4x4'; N = C*Rr; cf = C3 if simd else None
        # scalar operators
        body = f'{T} a={ld}(f); float s=f[{N}];\n'; k = 0; free = not simd
        for op in '+-*/':
            body += f'P(of+{k}, a {op} s); {{ {T} t=a; {T}& r=(t {op}= s); P(of+{k+N}, t); P(of+{k+2*N}, r); }}\n'; k += 3*N
            if free: body += f'P(of+{k}, s {op} a);\n'; k += N
        def spec(E, N=N, free=free):
            A, s = E.f[:N], E.f[N]; k = 0
            fn = {'+': lambda x, y: x+y, '-': lambda x, y: x-y, '*': lambda x, y: x*y, '/': lambda x, y: x/y}
            for op in '+-*/':
                for j in range(N):
                    for q in range(3): E.eq(f'm{op}s{"="*(q>0)}[{j}]', E.of[k+q*N+j], fn[op](A[j], s))
                k += 3*N
                if free:
                    for j in range(N): E.eq(f's{op}m[{j}]', E.of[k+j], fn[op](s, A[j]))
                    k += N
        def pre(E):
            for x in E.f: E.assume(E.NOT(E.eqc(x, E.k(0))))
        add(f'{T}_scalar', body, spec, nf=N+1, nof=k, pre=pre, cfgs=cf)
        # products
        if C == Rr:
            free = not simd
            body = f'{T} a={ld}(f), b={ld}(f+{N}); {V} v={vl}(f+{2*N}); P(of, a*b); P(of+{N}, a*v); {{ {T} t=a; {T}& r=(t*=b); P(of+{N+C}, t); P(of+{2*N+C}, r); }} ' + (f'P(of+{3*N+C}, v*a);' if free else '')
            def spec(E, n=C, N=N, free=free):
                A, B, v = E.f[:N], E.f[N:2*N], E.f[2*N:]
                ab = mm(A, B, n)
                for j in range(N):
                    for o, nm in ((0, 'm*m'), (N+n, 'm*=m'), (2*N+n, 'm*=m returns *this')): E.eq(f'{nm}[{j}]', E.of[o+j], ab[j])
                for r in range(n):
                    E.eq(f'm*v[{r}]', E.of[N+r], sum_(A[k*n+r]*v[k] for k in range(n)))
                    if free: E.eq(f'v*m[{r}]', E.of[3*N+n+r], sum_(A[r*n+k]*v[k] for k in range(n)))
            add(f'{T}_product', body, spec, nf=2*N+C, nof=3*N+2*C, cfgs=cf)
            def spec(E, n=C, N=N):
                aa = mm(E.f, E.f, n)
                for j in range(N): E.eq(f'm*=m on itself[{j}]', E.of[j], aa[j])
            add(f'{T}_square', f'{T} a={ld}(f); a *= a; P(of, a);', spec, nf=N, nof=N, cfgs=cf)
            tr = 'transpose4x4' if simd else 'transpose'
            def spec(E, n=C):
                for c in range(n):
                    for r in range(n): E.eq(f'transpose[{c}][{r}]', E.of[c*n+r], E.f[r*n+c])
            add(f'{T}_transpose', f'P(of, {tr}({ld}(f)));', spec, nf=N, nof=N, cfgs=cf)
        else:
            def spec(E):
                for r in range(3): E.eq(f'm*v[{r}]', E.of[r], sum_(E.f[k*3+r]*E.f[12+k] for k in range(4)))
            add('float4x3_product', 'P(of, M43(f)*F4(f+12));', spec, nf=16, nof=3)
        # equality (bit level): every element against the other
        def pre(E):
            for x in E.f: E.assume(E.AND(E.NOT(E.isnan(x)), E.NOT(E.fcmp('oeq', x, 0))))
        def spec(E, N=N):
            al = E.AND(*[E.fcmp('oeq', E.f[j], E.f[N+j]) for j in range(N)])
            E.iff('==', E.oi[0], al); E.iff('!=', E.oi[1], E.NOT(al))
        add(f'{T}_equality', f'{T} a={ld}(f), b={ld}(f+{N}); P(oi, a==b); P(oi+1, a!=b);', spec, mode='bits', nf=2*N, noi=2, pre=pre, cfgs=cf)
        # construction: row-major constructor, fill, columns, operator[] and constants
        args = ', '.join(f'f[{r*C+c}]' for r in range(Rr) for c in range(C)); VT = {2: 'float2', 3: 'float3', 4: 'float4'}[Rr] if not simd else 'f32x4'; VL = {2: 'F2', 3: 'F3', 4: 'F4'}[Rr] if not simd else 'S4'
        body = f'P(of, {T}({args})); P(of+{N}, {T}(f[0])); P(of+{2*N}, {T}({", ".join(f"{VL}(f+{c*Rr})" for c in range(C))}));\n'
        body += f'{{ const {T} m={ld}(f); ' + ' '.join(f'P(of+{3*N+c*Rr}, m[{c}]);' for c in range(C)) + f' }} {{ {T} m={ld}(f); {VT} v={VL}(f+{N}); m[i[0]] = v; P(of+{4*N}, m); {VT} x = m[i[0]]; P(of+{9*N}, x); }}\n'
        for q, cn in enumerate(('identity', 'zero', 'one', 'minusOne')): body += f'P(of+{(5+q)*N}, {T}::{cn});'
        if simd: body += f'P(of+{9*N+4}, f32x4x4(S4(f), S4(f+4), S4(f+8)));'
        def spec(E, C=C, Rr=Rr, N=N, simd=simd):
            for c in range(C):
                for r in range(Rr):
                    j = c*Rr+r
                    E.beq(f'rows ctor[{c}][{r}]', E.of[j], E.f[r*C+c]); E.beq(f'fill[{j}]', E.of[N+j], E.f[0]); E.beq(f'columns ctor[{j}]', E.of[2*N+j], E.f[j]); E.beq(f'operator[] const[{j}]', E.of[3*N+j], E.f[j])
                    E.beq(f'assign m[i][{j}]', E.of[4*N+j], E.sel(E.i[0].eq(c), E.f[N+r], E.f[j]))
                    for q, v in enumerate((E.F(1.0 if c == r else 0.0), 0, E.F(1.0), E.F(-1.0))): E.beq(f'const{q}[{j}]', E.of[(5+q)*N+j], v)
                    if simd: E.beq(f'3-column ctor[{j}]', E.of[9*N+4+j], E.f[j if c < 3 else 8+r])
            for r in range(Rr): E.beq(f'm[i][{r}]', E.of[9*N+r], E.f[N+r])
        add(f'{T}_construct', body, spec, mode='bits', nf=N+4, ni=1, nof=9*N+4+16, intrange={0: (0, C-1)}, cfgs=cf)
    # conversions
    body = ('float4x3 m43=M43(f); float3x3 m33=M33(f); float4x4 m44=M44(f); f32x4x4 s=SM44(f); float4 p=F4(f+16), q=F4(f+20);\n'
      'P(of, float4x4(m43, p)); P(of+16, float4x4(m33, p, q)); P(of+32, f32x4x4(m44)); P(of+48, f32x4x4(m43, f32x4(p))); P(of+64, f32x4x4(m33, f32x4(p), f32x4(q)));\n'
      'P(of+80, (float4x4)s); P(of+96, (float4x3)s); P(of+108, (float4x3)m44); P(of+120, (float3x3)s); P(of+129, (float3x3)m44); P(of+138, (float3x3)m43); P(of+147, (float2x2)s); P(of+151, (float2x2)m44); P(of+155, (float2x2)m43); P(of+159, (float2x2)m33);\n'
      'P(of+163, float4x4(m43)); P(of+179, float4x4(m33)); P(of+195, f32x4x4(m43)); P(of+211, f32x4x4(m33));')
    def spec(E):
        f = E.f; p, q = f[16:20], f[20:24]; z = [0]*4
        def chk(nm, base, exp):
            for j, e in enumerate(exp): E.beq(f'{nm}[{j}]', E.of[base+j], e)
        def from43(r3): return [x for c in range(4) for x in (*f[c*3:c*3+3], r3[c])]
        def from33(c3, r3): return [x for c in range(3) for x in (*f[c*3:c*3+3], r3[c])] + list(c3)
        def blk(st, C, Rr): return [f[c*st+r] for c in range(C) for r in range(Rr)]
        chk('float4x4(float4x3,r3)', 0, from43(p)); chk('float4x4(float3x3,c3,r3)', 16, from33(p, q)); chk('f32x4x4(float4x4)', 32, f[:16]); chk('f32x4x4(float4x3,r3)', 48, from43(p)); chk('f32x4x4(float3x3,c3,r3)', 64, from33(p, q))
        chk('(float4x4)f32x4x4', 80, f[:16]); chk('(float4x3)f32x4x4', 96, blk(4, 4, 3)); chk('(float4x3)float4x4', 108, blk(4, 4, 3)); chk('(float3x3)f32x4x4', 120, blk(4, 3, 3)); chk('(float3x3)float4x4', 129, blk(4, 3, 3)); chk('(float3x3)float4x3', 138, blk(3, 3, 3))
        chk('(float2x2)f32x4x4', 147, blk(4, 2, 2)); chk('(float2x2)float4x4', 151, blk(4, 2, 2)); chk('(float2x2)float4x3', 155, blk(3, 2, 2)); chk('(float2x2)float3x3', 159, blk(3, 2, 2))
        chk('float4x4(float4x3)', 163, from43(z)); chk('float4x4(float3x3)', 179, from33(z, z)); chk('f32x4x4(float4x3)', 195, from43(z)); chk('f32x4x4(float3x3)', 211, from33(z, z))
    add('conversions', body, spec, mode='bits', nf=24, nof=227)
    # SIMD 3x3 functions
    def spec(E):
        A, B, v = E.f[:16], E.f[16:32], E.f[32:36]
        for c in range(3 if E.h.cfg == 'scalar' else 4):    # the fourth column is not specified; all vector paths agree on it
            for r in range(3): E.eq(f'multiply3x3 m*m[{c}][{r}]', E.of[c*4+r], sum_(A[k*4+r]*B[c*4+k] for k in range(3)))
        for r in range(3): E.eq(f'multiply3x3 m*v[{r}]', E.of[16+r], sum_(A[k*4+r]*v[k] for k in range(3)))
        for c in range(3):
            for r in range(3): E.eq(f'transpose3x3[{c}][{r}]', E.of[20+c*4+r], A[r*4+c])
        for r in range(4): E.eq(f'transpose3x3 keeps column 3 [{r}]', E.of[32+r], A[12+r])
    add('f32x4x4_3x3', 'f32x4x4 a=SM44(f), b=SM44(f+16); P(of, multiply3x3(a,b)); P(of+16, multiply3x3(a,S4(f+32))); P(of+20, transpose3x3(a));', spec, nf=36, nof=36, cfgs=C3)
    return hs
