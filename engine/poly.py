"""Rational functions over symbols with Fraction coefficients (canonical polynomial form).

Used as the value domain of IEEE floats in "real" mode: every float is an exact rational function of the
symbolic inputs, so that re-association of the source code does not matter, and the final query handed to
the SMT solver is a polynomial constraint."""
from fractions import Fraction as Fr

class Poly:
    __slots__ = ('d', '_h')
    # d: dict monomial -> Fraction ; monomial: tuple of (var, exp) sorted
    def __init__(self, d): self.d = d; self._h = None
    @staticmethod
    def const(c):
        return Poly({(): Fr(c)}) if c else Poly({})
    @staticmethod
    def var(v): return Poly({((v, 1),): Fr(1)})
    def is_const(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def cval(self): return self.d.get((), Fr(0))
    def is_zero(self): return not self.d
    def __add__(a, b):
        if len(a.d) < len(b.d): a, b = b, a
        d = dict(a.d)
        for m, c in b.d.items():
            s = d.get(m)
            if s is None: d[m] = c
            else:
                s += c
                if s: d[m] = s
                else: del d[m]
        return Poly(d)
    def __neg__(a): return Poly({m: -c for m, c in a.d.items()})
    def __sub__(a, b): return a + (-b)
    def scale(a, k): return Poly({m: c * k for m, c in a.d.items()}) if k else Poly({})
    def key(self):
        if self._h is None: self._h = frozenset(self.d.items())
        return self._h
    def __eq__(a, b): return isinstance(b, Poly) and a.d == b.d
    def __hash__(self): return hash(self.key())
    def vars(self): return {v for m in self.d for v, _ in m}
    def degree(self): return max((sum(e for _, e in m) for m in self.d), default=0)
    def __repr__(self):
        return ' + '.join(f"{c}*" + '*'.join(f'v{v}^{e}' for v, e in m) for m, c in self.d.items()) or '0'
    def evalf(self, env):
        s = 0
        for m, c in self.d.items():
            t = c
            for v, e in m: t = t * env[v] ** e
            s = s + t
        return s

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    r = []; i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]: r.append((a[i][0], a[i][1] + b[j][1])); i += 1; j += 1
        elif a[i][0] < b[j][0]: r.append(a[i]); i += 1
        else: r.append(b[j]); j += 1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)

class TooBig(Exception): pass
MAXTERMS = 60000

def pmul(a, b, rules):
    if not a.d or not b.d: return Poly({})
    if len(a.d) * len(b.d) > MAXTERMS * 20: raise TooBig()
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mono_mul(m1, m2); c = c1 * c2
            s = d.get(m)
            d[m] = c if s is None else s + c
    d = {m: c for m, c in d.items() if c}
    if len(d) > MAXTERMS: raise TooBig()
    if rules: return reduce(Poly(d), rules)
    return Poly(d)

def reduce(p, rules):
    """rules: var -> Poly for var^2"""
    for _ in range(200):
        hit = None
        for m in p.d:
            for v, e in m:
                if e >= 2 and v in rules: hit = v; break
            if hit is not None: break
        if hit is None: return p
        rp = rules[hit]
        keep = {}; acc = Poly({})
        for m, c in p.d.items():
            e = 0
            for v, ex in m:
                if v == hit: e = ex
            if e >= 2:
                rest = tuple((v, ex) for v, ex in m if v != hit)
                if e % 2: rest = mono_mul(rest, ((hit, 1),))
                t = Poly({rest: c})
                for _k in range(e // 2): t = pmul(t, rp, None)
                acc = acc + t
            else: keep[m] = c
        p = Poly(keep) + acc
        if len(p.d) > MAXTERMS: raise TooBig()
    return p

def content_mono(p):
    it = iter(p.d)
    try: m0 = dict(next(it))
    except StopIteration: return ()
    for m in it:
        if not m0: return ()
        mm = dict(m)
        for v in list(m0):
            e = mm.get(v, 0)
            if e == 0: del m0[v]
            elif e < m0[v]: m0[v] = e
    return tuple(sorted(m0.items()))

def div_mono(p, m):
    if not m: return p
    dm = dict(m); r = {}
    for mm, c in p.d.items():
        t = []
        for v, e in mm:
            e -= dm.get(v, 0)
            if e: t.append((v, e))
        r[tuple(t)] = c
    return Poly(r)

def lead(p):
    """deterministic leading coefficient"""
    m = max(p.d)
    return p.d[m]

PR = (1 << 61) - 1
def maybe_divides(p, q):
    """necessary condition for q | p, checked with all variables but one set to numbers modulo a prime"""
    qv = {}
    for m in q.d:
        for v, e in m: qv[v] = max(qv.get(v, 0), e)
    x = min(qv, key=lambda v: (qv[v], v)); val = {}
    def uni(f):
        out = {}
        for m, c in f.d.items():
            k = 0; c = c if isinstance(c, Fr) else Fr(c); a = c.numerator % PR * pow(c.denominator, PR - 2, PR) % PR
            for v, e in m:
                if v == x: k = e
                else:
                    w = val.get(v)
                    if w is None: w = val[v] = (v * 0x9E3779B97F4A7C15 + 0x1234567) % PR
                    a = a * pow(w, e, PR) % PR
            out[k] = (out.get(k, 0) + a) % PR
        return out
    a, b = uni(p), uni(q); n = max(a, default=0); d = max(k for k, c in b.items() if c) if any(b.values()) else None
    if d is None: return True
    A = [a.get(k, 0) for k in range(n + 1)]; inv = pow(b[d], PR - 2, PR)
    for k in range(n, d - 1, -1):
        t = A[k] * inv % PR
        if t:
            for e, c in b.items(): A[k - d + e] = (A[k - d + e] - t * c) % PR
    return not any(A[:min(d, n + 1)])

def pdiv_exact(p, q):
    """p / q if q divides p exactly, else None (multivariate long division, lex order)"""
    if q.is_const(): return p.scale(1 / q.cval())
    if len(p.d) > 60 and not maybe_divides(p, q): return None
    lm = max(q.d, key=_lexkey); lc = q.d[lm]
    ld = dict(lm); quo = Poly({}); r = p; n = 0
    while r.d:
        n += 1
        if n > 400: return None
        m = max(r.d, key=_lexkey); md = dict(m)
        t = dict(md)
        for v, e in ld.items():
            if md.get(v, 0) < e: return None
            t[v] = md[v] - e
            if not t[v]: del t[v]
        tm = Poly({tuple(sorted(t.items())): r.d[m] / lc})
        quo = quo + tm
        r = r - pmul(tm, q, None)
    return quo

def _lexkey(m):
    # lex order on exponent vectors with var 0 most significant: compare as list of (-var, exp)
    return tuple((-v, e) for v, e in m)
