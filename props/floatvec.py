"""shared harness generator for floating point vector classes (scalar and SIMD)"""
from vf import H
AR = [('+', 'fadd'), ('-', 'fsub'), ('*', 'fmul'), ('/', 'fdiv')]
C3 = ['sse2', 'sse41', 'haswell']

def float_vec(T, n, ld, simd, cfgs, ldu):
    hs = []
    L = lambda o: f'{ld}(f+{o})'
    def add(*a, **k):
        k.setdefault('cfgs', cfgs); k.setdefault('mode', 'bits'); hs.append(H(*a, **k))
    # arithmetic
    body = f'{T} a={L(0)}, b={L(n)}; float s=f[{2*n}];\n'; k = 0
    for op, _ in AR:
        for e in (f'a {op} b', f'a {op} s', f's {op} b'): body += f'P(of+{k}, {e});\n'; k += n
        for o in 'bs':
            body += f'{{ {T} t=a; {T}& r=(t {op}= {o}); P(of+{k}, t); r=b; P(of+{k+n}, t); }}\n'; k += 2*n
    body += f'P(of+{k}, -a); {{ {T} t=a; t=s; P(of+{k+n}, t); }}\n'; k += 2*n
    def spec(E):
        A = E.f[:n]; B = E.f[n:2*n]; s = E.f[2*n]; k = 0
        for op, f in AR:
            g = lambda x, y: E.fop(f, x, y)
            for nm, X, Y in ((f'v{op}v', A, B), (f'v{op}s', A, [s]*n), (f's{op}v', [s]*n, B)):
                for j in range(n): E.beq(f'{nm}[{j}]', E.of[k+j], g(X[j], Y[j]))
                k += n
            for nm, Y in ((f'v{op}=v', B), (f'v{op}=s', [s]*n)):
                for j in range(n): E.beq(f'{nm}[{j}]', E.of[k+j], g(A[j], Y[j]))
                for j in range(n): E.beq(f'{nm} returns *this [{j}]', E.of[k+n+j], B[j])
                k += 2*n
        for j in range(n): E.bfeq(f'-v[{j}]', E.of[k+j], E.fop('fsub', 0x80000000, A[j])); E.beq(f'v=s[{j}]', E.of[k+n+j], s)
    add(f'{T}_arith', body, spec, nf=2*n+1, nof=k)
    # comparisons
    ops = ['<', '>', '<=', '>=']; pred = {'<': 'olt', '>': 'ogt', '<=': 'ole', '>=': 'oge'}
    body = f'{T} a={L(0)}, b={L(n)}; float s=f[{2*n}];\n'; k = 0
    for e in ('a', 'b'), ('a', 's'), ('s', 'b'):
        for op in ops: body += f'P(oi+{k}, {e[0]} {op} {e[1]});\n'; k += n
        for op in ('==', '!='): body += f'P(oi+{k}, {e[0]} {op} {e[1]});\n'; k += 1
    for f in ('equal', 'notEqual'): body += f'P(oi+{k}, {f}(a,b));\n'; k += n
    def spec(E):
        A = E.f[:n]; B = E.f[n:2*n]; s = E.f[2*n]; k = 0
        M = lambda c: E.w(E.sel(c, 0xffffffff, 0))
        for nm, X, Y in (('vv', A, B), ('vs', A, [s]*n), ('sv', [s]*n, B)):
            for op in ops:
                for j in range(n): E.weq(f'{nm} {op} [{j}]', E.oi[k+j], M(E.fcmp(pred[op], X[j], Y[j])))
                k += n
            alleq = E.AND(*[E.fcmp('oeq', X[j], Y[j]) for j in range(n)])
            E.iff(f'{nm} ==', E.oi[k], alleq); E.iff(f'{nm} !=', E.oi[k+1], E.NOT(alleq)); k += 2
        for j in range(n): E.weq(f'equal[{j}]', E.oi[k+j], M(E.fcmp('oeq', A[j], B[j])))
        for j in range(n): E.weq(f'notEqual[{j}]', E.oi[k+n+j], M(E.fcmp('une', A[j], B[j])))
    add(f'{T}_cmp', body, spec, nf=2*n+1, noi=3*(4*n+2)+2*n)
    # min/max/clamp/select
    t3 = not simd
    body = (f'{T} a={L(0)}, b={L(n)}, c={L(2*n)}; P(of,min(a,b)); P(of+{n},max(a,b)); '
        + (f'P(of+{2*n},min(a,b,c)); P(of+{3*n},max(a,b,c)); ' if t3 else '') + f'P(of+{4*n}, select({ldu}(i), a, b));')
    def pre(E):
        for x in E.f: E.assume(E.NOT(E.isnan(x)))
    def mn(E, x, y): return E.sel(E.fcmp('olt', x, y), x, y)
    def mx(E, x, y): return E.sel(E.fcmp('olt', x, y), y, x)
    def spec(E):
        A = E.f[:n]; B = E.f[n:2*n]; C = E.f[2*n:3*n]
        for j in range(n):
            a, b, c = A[j], B[j], C[j]
            E.bfeq(f'min[{j}]', E.of[j], mn(E, a, b)); E.bfeq(f'max[{j}]', E.of[n+j], mx(E, a, b))
            if t3: E.bfeq(f'min3[{j}]', E.of[2*n+j], mn(E, mn(E, a, b), c)); E.bfeq(f'max3[{j}]', E.of[3*n+j], mx(E, mx(E, a, b), c))
            E.beq(f'select[{j}]', E.of[4*n+j], E.sel(E.i[j].slt(0), a, b))
    add(f'{T}_minmax', body, spec, nf=3*n, ni=n, nof=5*n, pre=pre)
    def cpre(E):
        pre(E)
        for j in range(n): E.assume(E.fcmp('ole', E.f[n+j], E.f[2*n+j]))
    def spec(E):
        for j in range(n): E.bfeq(f'clamp[{j}]', E.of[j], mn(E, mx(E, E.f[j], E.f[n+j]), E.f[2*n+j]))
    add(f'{T}_clamp', f'P(of, clamp({L(0)}, {L(n)}, {L(2*n)}));', spec, nf=3*n, nof=n, pre=cpre)
    # unary, rounding
    body = (f'{T} a={L(0)}; P(of,abs(a)); P(of+{n},sqrt(a)); P(of+{2*n},sign(a)); P(of+{3*n},floor(a)); P(of+{4*n},ceil(a)); P(of+{5*n},trunc(a)); '
            f'P(of+{6*n},round(a)); P(oi,signBits(a)); P(of+{7*n}, fma({L(0)},{L(n)},{L(2*n)}));')
    def spec(E):
        A = E.f; sb = E.w(0)
        for j in range(n):
            a = A[j]; neg = E.w(a).slt(0)
            E.beq(f'abs[{j}]', E.of[j], (E.w(a) & 0x7fffffff).v); E.beq(f'sqrt[{j}]', E.of[n+j], E.fop('sqrt', a))
            E.beq(f'sign[{j}]', E.of[2*n+j], E.sel(neg, E.F(-1.0), E.F(1.0)))
            for q, fn in ((3, 'floor'), (4, 'ceil'), (5, 'trunc')): E.bfeq(f'{fn}[{j}]', E.of[q*n+j], E.fop(fn, a))
            o = E.of[6*n+j]; r1 = E.fop('round', a); r2 = E.fop('rint', a)
            E.true(f'round[{j}]', E.OR(E.isnan(a), E.fcmp('oeq', o, r1), E.fcmp('oeq', o, r2)))
            fu = E.fop('fma', A[j], A[n+j], A[2*n+j]); o = E.of[7*n+j]
            same = lambda p, q: True if not isinstance(p, int) and not isinstance(q, int) and p.eq(q) else E.OR(E.fcmp('oeq', p, q), E.AND(E.isnan(p), E.isnan(q)))
            if simd:
                un = E.fop('fadd', E.fop('fmul', A[j], A[n+j]), A[2*n+j])
                E.true(f'fma[{j}]', E.OR(same(o, fu), same(o, un)))
            else: E.true(f'fma[{j}]', same(o, fu))
            sb = sb | E.w(E.sel(neg, 1 << j, 0))
        E.weq('signBits', E.oi[0], sb)
    add(f'{T}_unary', body, spec, nf=3*n, nof=8*n, noi=1)
    # interpolation (over the reals)
    body = (f'{T} a={L(0)}, b={L(n)}; float t=f[{2*n}], dt=f[{2*n+1}]; P(of, lerp(a,b,t)); P(of+{n}, lerpDelta(a,b,t,dt)); P(of+{2*n}, lerp(a,b,0.0f)); P(of+{3*n}, lerp(a,b,1.0f));')
    def lpre(E): E.assume(E.lt(0, E.f[2*n]))
    def spec(E):
        t, dt = E.f[2*n], E.f[2*n+1]; p = E.libm('pow', t, dt)
        for j in range(n):
            a, b = E.f[j], E.f[n+j]
            E.eq(f'lerp[{j}]', E.of[j], a + t*(b-a)); E.eq(f'lerpDelta[{j}]', E.of[n+j], a + (1-p)*(b-a))
            E.eq(f'lerp t=0 [{j}]', E.of[2*n+j], a); E.eq(f'lerp t=1 [{j}]', E.of[3*n+j], b)
    add(f'{T}_lerp', body, spec, mode='real', nf=2*n+2, nof=4*n, pre=lpre, posv=(2*n,), box=3)
    # repeat: one lane at a time (each lane branches on its own range), the others fixed
    for j in range(n):
        others = ''.join(f'v[{q}]=0.25f;' for q in range(n) if q != j)
        def rpre(E): E.assume(E.AND(E.le(-1000, E.f[0]), E.le(E.f[0], 1000)))
        def spec(E, j=j):
            v = E.f[0]; r = E.of[j]
            if not E.isnum(r): E.true('repeat finite', False); return
            fl = E.libm('floor', v); d = v - fl
            E.le_('repeat >= 0', E.k(0), r); E.le_('repeat <= 1', r, E.k(1))
            E.true('repeat differs from v by an integer', E.OR(E.eqc(r, d), E.AND(E.lt(v, 0), E.eqc(d, 0), E.eqc(r, 1))), slacks=(r-d,) if not E.conc else (r-d, r-d-1))
            for q in range(n):
                if q != j: E.eq(f'other lane {q}', E.of[q], E.k(0.25))
        add(f'{T}_repeat_{j}', f'{T} v=({T})0.25f; v[{j}]=f[0]; P(of, repeat(v));', spec, mode='real', nf=1, nof=n, pre=rpre, box=9, tol=1e-3)
    # gain
    if not simd:
        for j in range(n):
            body = f'{T} x=({T})0.25f, k=({T})1.0f; x[{j}]=f[0]; k[{j}]=f[1]; P(of, gain(x, k));'
            def gpre(E): E.assume(E.AND(E.lt(0, E.f[0]), E.lt(E.f[0], 1), E.lt(0, E.f[1])))
            def spec(E, j=j):
                x, k = E.f[0], E.f[1]
                lo = E.k(0.5)*E.libm('pow', 2*x, k); hi = 1 - E.k(0.5)*E.libm('pow', 2*(1-x), k)
                E.eq(f'gain[{j}]', E.of[j], E.ite(E.lt(x, E.k(0.5)), lo, hi))
                for q in range(n):
                    if q != j: E.eq(f'gain other lane [{q}]', E.of[q], E.k(0.25))
            add(f'{T}_gain_{j}', body, spec, mode='real', nf=2, nof=n, pre=gpre, box=1, gen=lambda rng: ([rng.uniform(.05, .95), rng.uniform(.2, 3)], [], []))
    return hs
