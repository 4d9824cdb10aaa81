"""shared harness generator for integer vector classes (scalar and SIMD)"""
from vf import H
BIN = [('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('&', 'and'), ('|', 'or'), ('^', 'xor')]

def int_vec(T, S, n, sg, ld, ldu, simd, cfgs):
    """T vector type, S scalar type, ld/ldu: loader names for operand / mask vectors"""
    hs = []
    L = lambda o: f'{ld}(i+{o})'
    def add(*a, **k): hs.append(H(*a, mode='bits', cfgs=cfgs, **k))
    def group(name, ops, pre=None, svforms=True):
        body = f'{T} a={L(0)}, b={L(n)}; {S} s=({S})i[{2*n}];\n'; k = 0
        forms = lambda op: (f'a {op} b', f'a {op} s', f's {op} b') if svforms else (f'a {op} b', f'a {op} s')
        nf = 3 if svforms else 2
        for op, _ in ops:
            for e in forms(op):
                body += f'P(oi+{k}, {e});\n'; k += n
            body += f'{{ {T} t=a; {T}& r=(t {op}= b); P(oi+{k}, t); r=b; P(oi+{k+n}, t); }}\n'; k += 2 * n
            body += f'{{ {T} t=a; {T}& r=(t {op}= s); P(oi+{k}, t); r=b; P(oi+{k+n}, t); }}\n'; k += 2 * n
        def spec(E):
            A = E.i[:n]; B = E.i[n:2*n]; s = E.i[2*n]; k = 0
            for op, f in ops:
                g = (lambda x, y, f=f: x._b(f, y))
                for nm, xs, ys in ((f'v{op}v', A, B), (f'v{op}s', A, [s]*n), (f's{op}v', [s]*n, B))[:nf]:
                    for j in range(n): E.weq(f'{nm}[{j}]', E.oi[k+j], g(xs[j], ys[j]))
                    k += n
                for nm, ys in ((f'v{op}=v', B), (f'v{op}=s', [s]*n)):
                    for j in range(n): E.weq(f'{nm}[{j}]', E.oi[k+j], g(A[j], ys[j]))
                    for j in range(n): E.weq(f'{nm} returns *this [{j}]', E.oi[k+n+j], B[j])
                    k += 2 * n
        add(f'{T}_{name}', body, spec, ni=2*n+1, noi=(nf+4)*n*len(ops), pre=pre)
    group('arith', BIN)
    def dpre(E):
        for j in range(n, 2*n+1):
            E.assume(E.i[j].ne(0))
            if sg: E.assume(E.i[j].ne(0xffffffff))
    group('div', [('/', 'sdiv' if sg else 'udiv'), ('%', 'srem' if sg else 'urem')], dpre)
    def spre(E):
        for j in range(n, 2*n+1): E.assume(E.i[j].ult(32))
    group('shift', [('<<', 'shl'), ('>>', 'ashr' if sg else 'lshr')], spre)
    # unary, assignment
    neg = sg or not simd
    body = f'{T} a={L(0)}; {S} s=({S})i[{n}]; ' + (f'P(oi,-a);' if neg else '') + f' P(oi+{n},!a); P(oi+{2*n},~a); {{ {T} t=a; t=s; P(oi+{3*n},t); }}'
    def spec(E):
        A = E.i[:n]; s = E.i[n]
        for j in range(n):
            if neg: E.weq(f'-v[{j}]', E.oi[j], -A[j])
            E.weq(f'!v[{j}]', E.oi[n+j], E.w(E.sel(A[j].eq(0), 1, 0)))
            E.weq(f'~v[{j}]', E.oi[2*n+j], ~A[j])
            E.weq(f'v=s[{j}]', E.oi[3*n+j], s)
    add(f'{T}_unary', body, spec, ni=n+1, noi=4*n)
    # comparisons
    ops = ['<', '>', '<=', '>=']
    body = f'{T} a={L(0)}, b={L(n)}; {S} s=({S})i[{2*n}];\n'; k = 0
    for e in ('a', 'b'), ('a', 's'), ('s', 'b'):
        for op in ops: body += f'P(oi+{k}, {e[0]} {op} {e[1]});\n'; k += n
        for op in ('==', '!='): body += f'P(oi+{k}, {e[0]} {op} {e[1]});\n'; k += 1
    for f in ('equal', 'notEqual'): body += f'P(oi+{k}, {f}(a,b));\n'; k += n
    lt = (lambda x, y: x.slt(y)) if sg else (lambda x, y: x.ult(y))
    le = (lambda x, y: x.sle(y)) if sg else (lambda x, y: x.ule(y))
    def spec(E):
        A = E.i[:n]; B = E.i[n:2*n]; s = E.i[2*n]; k = 0
        F = {'<': lt, '>': lambda x, y: lt(y, x), '<=': le, '>=': lambda x, y: le(y, x)}
        M = lambda c: E.w(E.sel(c, 0xffffffff, 0))
        for nm, X, Y in (('vv', A, B), ('vs', A, [s]*n), ('sv', [s]*n, B)):
            for op in ops:
                for j in range(n): E.weq(f'{nm} {op} [{j}]', E.oi[k+j], M(F[op](X[j], Y[j])))
                k += n
            alleq = E.AND(*[X[j].eq(Y[j]) for j in range(n)])
            E.iff(f'{nm} ==', E.oi[k], alleq); E.iff(f'{nm} !=', E.oi[k+1], E.NOT(alleq)); k += 2
        for j in range(n): E.weq(f'equal[{j}]', E.oi[k+j], M(A[j].eq(B[j])))
        for j in range(n): E.weq(f'notEqual[{j}]', E.oi[k+n+j], M(A[j].ne(B[j])))
    add(f'{T}_cmp', body, spec, ni=2*n+1, noi=3*(4*n+2)+2*n)
    # min/max/clamp/select
    t3 = not simd
    body = (f'{T} a={L(0)}, b={L(n)}, c={L(2*n)}; P(oi,min(a,b)); P(oi+{n},max(a,b)); '
            + (f'P(oi+{2*n},min(a,b,c)); P(oi+{3*n},max(a,b,c)); ' if t3 else '') +
            f'P(oi+{4*n}, select({ldu}(i+{2*n}), a, b)); P(oi+{5*n}, clamp(a, min(b,c), max(b,c)));'
            + (f'P(oi+{6*n}, bic(a, b));' if simd else ''))
    def spec(E):
        A = E.i[:n]; B = E.i[n:2*n]; C = E.i[2*n:3*n]
        mn = lambda x, y: E.w(E.sel(lt(x, y), x.v, y.v)); mx = lambda x, y: E.w(E.sel(lt(x, y), y.v, x.v))
        for j in range(n):
            a, b, c = A[j], B[j], C[j]
            E.weq(f'min[{j}]', E.oi[j], mn(a, b)); E.weq(f'max[{j}]', E.oi[n+j], mx(a, b))
            if t3: E.weq(f'min3[{j}]', E.oi[2*n+j], mn(mn(a, b), c)); E.weq(f'max3[{j}]', E.oi[3*n+j], mx(mx(a, b), c))
            E.weq(f'select[{j}]', E.oi[4*n+j], E.w(E.sel(c.slt(0), a.v, b.v)))
            lo, hi = mn(b, c), mx(b, c)
            E.weq(f'clamp[{j}]', E.oi[5*n+j], mn(mx(a, lo), hi))
            if simd: E.weq(f'bic[{j}]', E.oi[6*n+j], a & ~b)
    add(f'{T}_minmax', body, spec, ni=3*n, noi=7*n)
    if not sg:
        body = (f'{T} a={L(0)}; P(oi,(int32_t)getTrues(a)); P(oi+1,areAllTrue(a)); P(oi+2,areAllFalse(a)); P(oi+3,areAnyTrue(a)); P(oi+4,areAnyFalse(a));')
        def mask(E):      # boolean vectors: components are all-ones or zero (what the comparison operators produce)
            if simd:
                for x in E.i[:n]: E.assume(E.OR(x.eq(0), x.eq(0xffffffff)))
        def spec(E):
            A = E.i[:n]
            r = E.w(0)
            for j in range(n): r = r | A[j].shr(31).shl(j)
            E.weq('getTrues', E.oi[0], r)
            allT = E.AND(*[x.eq(0xffffffff) for x in A]); allF = E.AND(*[x.eq(0) for x in A])
            E.iff('areAllTrue', E.oi[1], allT); E.iff('areAllFalse', E.oi[2], allF)
            E.iff('areAnyTrue', E.oi[3], E.NOT(allF)); E.iff('areAnyFalse', E.oi[4], E.NOT(allT))
        add(f'{T}_reduce', body, spec, ni=n, noi=5, pre=mask)
    if simd:
        fn = ['min', 'max', 'min4', 'max4', 'min3', 'max3']
        body = f'{T} a={L(0)};' + ''.join(f'P(oi+{j},({S}){f}(a));' for j, f in enumerate(fn))
        def spec(E):
            A = E.i[:4]
            mn = lambda x, y: E.w(E.sel(lt(x, y), x.v, y.v)); mx = lambda x, y: E.w(E.sel(lt(x, y), y.v, x.v))
            for j, f in enumerate(fn):
                g = mn if f.startswith('min') else mx
                r = A[0]
                for x in A[1:3 if f.endswith('3') else 4]: r = g(r, x)
                E.weq(f, E.oi[j], r)
        add(f'{T}_hminmax', body, spec, ni=4, noi=6)
    return hs
