"""C03: construction, conversion, component access, swizzling of every vector class."""
from vf import H
import itertools
META = dict(
 title='Vector construction, conversion, access and swizzling preserve components',
 statement='Every constructor, conversion, component accessor, index operator, load/store and swizzle of the scalar and SIMD vector types puts exactly the documented source '
   'component in each destination component: parts are concatenated in order, a scalar is broadcast, narrowing keeps the leading components, and SIMD vectors built from 3 components duplicate Z into W. '
   'Conversions between signed and unsigned keep the 32 bits; integer to float gives the nearest float of the numeric value; float to integer truncates toward zero. '
   'Named constants (zero, one, minusOne, axis directions) have their documented components.',
 long=True,
 quant='every value of every component (float to integer only where the truncated value is representable) and every index and swizzle pattern',
 over=['inputs', 'configurations'],
 why='the container tests construct a few vectors with small positive values; swapped components, wrong lanes or signedness need other constructors and values',
 files=['include/math/vector/int.hpp', 'include/math/vector/uint.hpp', 'include/math/vector/float.hpp', 'include/math/simd/vector/int.hpp', 'include/math/simd/vector/uint.hpp', 'include/math/simd/vector/float.hpp'],
 mech=[('constructors, conversion operators, operator[], get/set, load/store, swizzle', 'the six vector headers')],
 note='Bit-precise SMT over all inputs; conversions use the solver\'s IEEE-754 theory. Trusts clang IR and the executor (cross-checked against g++ builds).')
EXPLAIN = 'Every constructor/conversion/accessor is executed on symbolic components and each output component is compared with its documented source.'
ASSUME = ['float to integer conversions only where the truncated value fits (otherwise undefined)']
BOUNDS = ['all values; all 256 swizzle patterns of each SIMD type; all indices']
C3 = ['sse2', 'sse41', 'haswell']
COMPS = {2: [(1, 1)], 3: [(1, 1, 1), (2, 1), (1, 2)], 4: [(1, 1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2), (3, 1), (1, 3)]}
LD = {'int': 'I', 'uint': 'U', 'float': 'F'}
SC = {'int': 'int32', 'uint': 'uint32', 'float': 'float'}

def harnesses(tier):
    hs = []
    def add(*a, **k):
        k.setdefault('cfgs', ['sse2', 'haswell']); hs.append(H(*a, mode='bits', **k))
    for base in ('int', 'uint', 'float'):
        fl = base == 'float'; src = 'f' if fl else 'i'; out = 'of' if fl else 'oi'; S = SC[base]
        for n in (2, 3, 4):
            T = f'{base}{n}'
            body = ''; k = 0; exp = []      # exp: (name, source index)
            def emit(e, m, srcs, nm):
                nonlocal body, k
                body += f'P({out}+{k}, {e});\n'
                for j in range(m): exp.append((f'{nm}[{j}]', srcs[j]))
                k += m
            for comp in COMPS[n]:
                o = 0; args = []
                for c in comp:
                    args.append(f'({S}){src}[{o}]' if c == 1 else f'{LD[base]}{c}({src}+{o})'); o += c
                emit(f'{T}({", ".join(args)})', n, list(range(n)), f'{T}{comp}')
            emit(f'{T}(({S}){src}[0])', n, [0]*n, f'{T} broadcast')
            body += f'{T} a = {LD[base]}{n}({src});\n'
            for m in range(2, n): emit(f'({base}{m})a', m, list(range(m)), f'({base}{m}){T}')
            emit(f'({S})a', 1, [0], f'scalar({T})')
            for j in range(n): emit(f'a[{j}]', 1, [j], f'{T}[{j}]'); emit(f'((const {T}&)a)[{j}]', 1, [j], f'const {T}[{j}]')
            for j, c in enumerate('xyzw'[:n]): emit(f'a.{c}', 1, [j], f'{T}.{c}')
            for j in range(n):
                s2 = list(range(n)); s2[j] = n
                body += f'{{ {T} b = a; b[{j}] = ({S}){src}[{n}]; P({out}+{k}, b); }}\n'
                for q in range(n): exp.append((f'{T}[{j}]= [{q}]', s2[q]))
                k += n
            def spec(E, exp=exp, fl=fl):
                for j, (nm, si) in enumerate(exp):
                    if fl: E.beq(nm, E.of[j], E.f[si])
                    else: E.weq(nm, E.oi[j], E.i[si])
            add(f'ctor_{T}', body, spec, nf=n+1 if fl else 0, ni=0 if fl else n+1, nof=k if fl else 0, noi=0 if fl else k)
        # constants
    names = {'zero': 0, 'one': 1, 'minusOne': -1}
    axes = {'left': (0, -1), 'right': (0, 1), 'bottom': (1, -1), 'top': (1, 1), 'back': (2, -1), 'front': (2, 1)}
    body = ''; ex = []; kf = ki = 0
    for base in ('int', 'uint', 'float'):
        for n in (2, 3, 4):
            for nm, v in names.items():
                if base == 'uint' and v < 0: continue
                vals = [v]*n
                if base == 'float': body += f'P(of+{kf}, float{n}::{nm});\n'; ex += [('f', kf+j, vals[j], f'float{n}::{nm}[{j}]') for j in range(n)]; kf += n
                else: body += f'P(oi+{ki}, {base}{n}::{nm});\n'; ex += [('i', ki+j, vals[j], f'{base}{n}::{nm}[{j}]') for j in range(n)]; ki += n
            if base != 'uint' and n < 4:
                for nm, (ax, v) in axes.items():
                    if ax >= n: continue
                    vals = [0]*n; vals[ax] = v
                    if base == 'float': body += f'P(of+{kf}, float{n}::{nm});\n'; ex += [('f', kf+j, vals[j], f'float{n}::{nm}[{j}]') for j in range(n)]; kf += n
                    else: body += f'P(oi+{ki}, {base}{n}::{nm});\n'; ex += [('i', ki+j, vals[j], f'{base}{n}::{nm}[{j}]') for j in range(n)]; ki += n
    for T, vals, o in (('u32x4', {'zero': 0, 'one': 1, 'max': 0xffffffff}, 'i'), ('i32x4', {'zero': 0, 'one': 1, 'minusOne': -1, 'min': -2**31, 'max': 2**31-1}, 'i'),
                       ('f32x4', {'zero': 0, 'one': 1, 'minusOne': -1}, 'f')):
        for nm, v in vals.items():
            if o == 'f': body += f'P(of+{kf}, {T}::{nm});\n'; ex += [('f', kf+j, v, f'{T}::{nm}[{j}]') for j in range(4)]; kf += 4
            else: body += f'P(oi+{ki}, {T}::{nm});\n'; ex += [('i', ki+j, v, f'{T}::{nm}[{j}]') for j in range(4)]; ki += 4
    def spec(E, ex=ex):
        for kind, k, v, nm in ex:
            if kind == 'f': E.bfeq(nm, E.of[k], E.F(float(v)))
            else: E.weq(nm, E.oi[k], E.w(v))
    add('constants', body, spec, nof=kf, noi=ki)
    # conversions
    for n in (2, 3, 4):
        body = f'P(oi, int{n}(U{n}(i))); P(oi+{n}, (uint{n})I{n}(i)); P(of, float{n}(U{n}(i))); P(of+{n}, float{n}(I{n}(i)));\n'
        k = 2*n
        for m in range(2, n): body += f'P(oi+{k}, (uint{m})I{n}(i)); '; k += m
        body += f'P(oi+{k}, (uint32)I{n}(i));'
        def spec(E, n=n):
            for j in range(n):
                E.weq(f'int{n}(uint{n})[{j}]', E.oi[j], E.i[j]); E.weq(f'(uint{n})int{n}[{j}]', E.oi[n+j], E.i[j])
                E.beq(f'float{n}(uint{n})[{j}]', E.of[j], E.itof(E.i[j], False)); E.beq(f'float{n}(int{n})[{j}]', E.of[n+j], E.itof(E.i[j], True))
            k = 2*n
            for m in range(2, n):
                for j in range(m): E.weq(f'(uint{m})int{n}[{j}]', E.oi[k+j], E.i[j])
                k += m
            E.weq(f'(uint32)int{n}', E.oi[k], E.i[0])
        add(f'conv_{n}', body, spec, ni=n, noi=3*n+8, nof=2*n)
        for sg in (1, 0):
            base = 'int' if sg else 'uint'
            body = f'float{n} a = F{n}(f); '; k = 0; ex = []
            for m in range(2, n + 1):
                body += f'P(oi+{k}, ({base}{m})a); '; ex += [(k+j, j, f'({base}{m})float{n}[{j}]') for j in range(m)]; k += m
            body += f'P(oi+{k}, ({base}32)a);'; ex.append((k, 0, f'({base}32)float{n}')); k += 1
            def pre(E, n=n, sg=sg):
                lo, hi = (-2147483904.0, 2147483648.0) if sg else (-1.0, 4294967296.0)
                for j in range(n):
                    E.assume(E.AND(E.fcmp('ogt', E.f[j], E.F(lo)), E.fcmp('olt', E.f[j], E.F(hi))))
            def spec(E, ex=ex, sg=sg):
                for k, j, nm in ex: E.weq(nm, E.oi[k], E.ftoi(E.f[j], bool(sg)))
            add(f'trunc_{base}{n}', body, spec, nf=n, noi=k, pre=pre)
    # SIMD
    for T, base, ld in (('u32x4', 'uint', 'SU4'), ('i32x4', 'int', 'SI4'), ('f32x4', 'float', 'S4')):
        fl = base == 'float'; src = 'f' if fl else 'i'; out = 'of' if fl else 'oi'; S = SC[base]; V = LD[base]
        body = ''; k = 0; exp = []
        def emit(e, m, srcs, nm):
            nonlocal body, k
            body += f'P({out}+{k}, {e});\n'
            for j in range(m): exp.append((f'{nm}[{j}]', srcs[j]))
            k += m
        s = [f'({S}){src}[{j}]' for j in range(5)]
        emit(f'{T}()', 4, [-1]*4, f'{T}()')
        emit(f'{T}({s[0]})', 4, [0]*4, f'{T} broadcast')
        emit(f'{T}({s[0]},{s[1]},{s[2]},{s[3]})', 4, [0, 1, 2, 3], f'{T}(x,y,z,w)')
        emit(f'{T}({s[0]},{s[1]},{s[2]})', 4, [0, 1, 2, 2], f'{T}(x,y,z)')
        emit(f'{T}({ld}({src}), {s[4]})', 4, [0, 1, 2, 4], f'{T}(xyz,w)')
        emit(f'{T}({V}4({src}))', 4, [0, 1, 2, 3], f'{T}({base}4)')
        emit(f'{T}({V}3({src}))', 4, [0, 1, 2, 2], f'{T}({base}3)')
        body += f'{{ auto t={T}({V}2({src})); P({out}+{k}, t); }}\n'; exp += [(f'{T}({base}2)[{j}]', j) for j in range(2)] + [(None, 0)]*2; k += 4
        emit(f'{T}((const {S}*){src})', 4, [0, 1, 2, 3], f'{T}(pointer)')
        body += f'alignas(16) {S} m[4]; {T} a = {ld}({src}); a.store(m); P({out}+{k}, {V}4(({"const float" if fl else "const int32_t"}*)m)); a.storeAligned(m); {T} al; al.loadAligned(m); P({out}+{k+4}, al);\n'
        exp += [(f'store[{j}]', j) for j in range(4)] + [(f'storeAligned/loadAligned[{j}]', j) for j in range(4)]; k += 8
        for j, c in enumerate('XYZW'):
            emit(f'a.get{c}()', 1, [j], f'{T}.get{c}'); emit(f'a[{j}]', 1, [j], f'{T}[{j}]'); emit(f'((const {T}&)a)[{j}]', 1, [j], f'const {T}[{j}]')
            emit(f'a.splat{c}()', 4, [j]*4, f'{T}.splat{c}')
            s2 = [0, 1, 2, 3]; s2[j] = 4
            body += f'{{ {T} b=a; b.set{c}({s[4]}); P({out}+{k}, b); b=a; b[{j}]={s[4]}; P({out}+{k+4}, b); }}\n'
            exp += [(f'set{c}[{q}]', s2[q]) for q in range(4)] + [(f'{T}[{j}]= [{q}]', s2[q]) for q in range(4)]; k += 8
        body += f'{{ {T} b=a; b.fixW(); P({out}+{k}, b); }}\n'; exp += [(f'fixW[{q}]', min(q, 2)) for q in range(4)]; k += 4
        for m in (2, 3, 4): emit(f'({base}{m})a', m, list(range(m)), f'({base}{m}){T}')
        emit(f'({S})a', 1, [0], f'scalar {T}')
        def spec(E, exp=exp, fl=fl):
            for j, (nm, si) in enumerate(exp):
                if nm is None: continue
                if fl: E.beq(nm, E.of[j], E.f[si] if si >= 0 else 0)
                else: E.weq(nm, E.oi[j], E.i[si] if si >= 0 else E.w(0))
        add(f'ctor_{T}', body, spec, nf=5 if fl else 0, ni=0 if fl else 5, nof=k if fl else 0, noi=0 if fl else k, cfgs=C3)
        body = f'{T} a={ld}({src});\n'; k = 0; pats = list(itertools.product(range(4), repeat=4))
        for p in pats: body += f'P({out}+{k}, a.swizzle<{p[0]},{p[1]},{p[2]},{p[3]}>());\n'; k += 4
        def spec(E, pats=pats, fl=fl):
            for q, p in enumerate(pats):
                for j in range(4):
                    nm = f'swizzle<{p}>[{j}]'
                    if fl: E.beq(nm, E.of[4*q+j], E.f[p[j]])
                    else: E.weq(nm, E.oi[4*q+j], E.i[p[j]])
        add(f'swizzle_{T}', body, spec, nf=4 if fl else 0, ni=0 if fl else 4, nof=k if fl else 0, noi=0 if fl else k)
        body = f'{T} a={ld}({src});\n'; k = 0; p3 = list(itertools.product(range(4), repeat=3))
        for p in p3: body += f'P({out}+{k}, a.swizzle<{p[0]},{p[1]},{p[2]}>());\n'; k += 4
        if T != 'u32x4':
            def spec(E, pats=p3, fl=fl):
                for q, p in enumerate(pats):
                    for j in range(3):
                        if fl: E.beq(f'swizzle<{p}>[{j}]', E.of[4*q+j], E.f[p[j]])
                        else: E.weq(f'swizzle<{p}>[{j}]', E.oi[4*q+j], E.i[p[j]])
            add(f'swizzle3_{T}', body, spec, nf=4 if fl else 0, ni=0 if fl else 4, nof=k if fl else 0, noi=0 if fl else k, cfgs=['sse2'])
    body = 'P(oi, i32x4(SU4(i))); P(oi+4, (u32x4)SI4(i)); P(of, f32x4(SI4(i))); P(of+4, f32x4(SU4(i)));'
    def spec(E):
        for j in range(4):
            E.weq(f'i32x4(u32x4)[{j}]', E.oi[j], E.i[j]); E.weq(f'(u32x4)i32x4[{j}]', E.oi[4+j], E.i[j])
            E.beq(f'f32x4(i32x4)[{j}]', E.of[j], E.itof(E.i[j], True)); E.beq(f'f32x4(u32x4)[{j}]', E.of[4+j], E.itof(E.i[j], False))
    add('simd_conv', body, spec, ni=4, noi=8, nof=8, cfgs=C3)
    for sg in (1, 0):
        def pre(E, sg=sg):
            lo, hi = (-2147483904.0, 2147483648.0) if sg else (-1.0, 4294967296.0)
            for j in range(4): E.assume(E.AND(E.fcmp('ogt', E.f[j], E.F(lo)), E.fcmp('olt', E.f[j], E.F(hi))))
        def spec(E, sg=sg):
            for j in range(4): E.weq(f'({"i32x4" if sg else "u32x4"})f32x4[{j}]', E.oi[j], E.ftoi(E.f[j], bool(sg)))
        add(f'simd_trunc_{"i" if sg else "u"}', f'P(oi, ({"i32x4" if sg else "u32x4"})S4(f));', spec, nf=4, noi=4, pre=pre, cfgs=C3)
    return hs
